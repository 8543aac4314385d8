"""Random interpretation of value graphs.

Two value graphs with different normal forms are told apart by evaluating both
on the same valuation of their leaves.  Only the graphs are evaluated, never
the program.  Uninterpreted functions become arbitrary functions, so a
valuation that satisfies the facts of the obligation and separates the graphs
is a genuine counter-example of the obligation.
"""
import functools
import math
import random
import time
from fractions import Fraction
from terms import *
import terms
from values import *
import values

EPS = 1e-9
RAT = (int, Fraction)


def Q(x):
    return int(x) if x.denominator == 1 else Fraction(x)


class CannotEval(Exception):
    pass


class Undefined(CannotEval):
    """a division by zero: the value does not exist"""


UNDEF = object()


REALFN = {
    "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp,
    "log": math.log, "asin": math.asin, "acos": math.acos, "atan": math.atan, "sinh": math.sinh,
    "cosh": math.cosh, "tanh": math.tanh, "log10": math.log10, "log2": math.log2,
    "cbrt": lambda x: math.copysign(abs(x) ** (1.0 / 3), x), "log1p": math.log1p,
    "expm1": math.expm1, "floor": math.floor, "ceil": math.ceil,
}


def num_eq(a, b):
    if isinstance(a, RAT) and isinstance(b, RAT):
        return a == b
    return abs(float(a) - float(b)) <= EPS * (1 + abs(float(a)) + abs(float(b)))


def isnum(a):
    return isinstance(a, (Fraction, float, int))


def val_eq(a, b):
    if isnum(a) and isnum(b):
        return num_eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and b and a[0] == "C" or b and b[0] == "C":
            ra, ia = (a[1], a[2]) if a and a[0] == "C" else (a, 0)
            rb, ib = (b[1], b[2]) if b and b[0] == "C" else (b, 0)
            return val_eq(ra, rb) and val_eq(ia, ib)
        return len(a) == len(b) and all(val_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and a and a[0] == "C" and isnum(b):
        return val_eq(a[1], b) and val_eq(a[2], 0)
    if isinstance(b, tuple) and b and b[0] == "C" and isnum(a):
        return val_eq(b, a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(val_eq(x, y) for x, y in zip(a, b))
    return a == b


def freeze(v):
    if isinstance(v, float):
        r = round(v, 7)
        if abs(r - round(r)) < 1e-7:
            return int(round(r))
        return r
    if isinstance(v, list):
        return ("L",) + tuple(freeze(x) for x in v)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


def numtext(v):
    v = freeze(v)
    if isinstance(v, RAT) and v.denominator == 1:
        return str(int(v))
    return "#%s" % v


def collect_strings(x, out, seen):
    if isinstance(x, (Poly, Node)):
        if x in seen:
            return
        seen.add(x)
        if isinstance(x, Node) and x.kind == "str":
            out.add(x.args[0])
    elif not isinstance(x, tuple):
        return
    for c in children(x):
        collect_strings(c, out, seen)


def collect_consts(x, out, seen):
    if isinstance(x, (Poly, Node)):
        if x in seen:
            return
        seen.add(x)
        if isinstance(x, Poly):
            for m, c in x.t.items():
                if abs(c) < 64:
                    out.add(Q(c))
        elif x.kind == "ge":
            out.add(Q(x.args[1]))
            out.add(Q(x.args[1]) - 1)
    elif not isinstance(x, tuple):
        return
    for c in children(x):
        collect_consts(c, out, seen)


def determined(base):
    """does the base denote (part of) a value computed elsewhere?"""
    while base[0] == "elem":
        if base[1].kind != "ssym":
            return True
        base = base[1].args[0]
    return base[0] in ("mu", "opq")


PLANS = {}


class Model:
    def __init__(self, rng, strings, ints, reals):
        self.rng = rng
        self.val = {}
        self.sort = {}
        self.strings = strings
        self.ints = ints
        self.reals = reals
        self.touched = set()
        self.memo = {}
        self.done = {}
        self.env = {}
        self.budget = 200000

    # -- leaves --------------------------------------------------------------
    def candidates(self, sort):
        if sort == "ind":
            return [0, 1]
        if sort == "nat":
            return [x for x in self.ints if x >= 0]
        if sort == "len":
            return [0, 1, 2, 3, 4]
        if sort == "int":
            return self.ints
        if sort in ("real", "vec"):
            return self.reals
        if sort == "str":
            return self.strings
        return [("O", i) for i in range(4)]

    def leafval(self, key, sort):
        self.touched.add(key)
        v = self.val.get(key)
        if v is None:
            v = self.rng.choice(self.candidates(sort))
            self.val[key] = v
            self.sort[key] = sort
        return v

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise CannotEval("budget")

    # -- evaluation ----------------------------------------------------------
    def ev(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Node):
            return self.node(x)
        if isinstance(x, tuple):
            return tuple(self.ev(c) for c in x)
        return x

    def num(self, x):
        v = self.ev(x)
        if isinstance(v, tuple) and v and v[0] == "C":
            if num_eq(v[2], 0):
                return v[1]
            raise CannotEval("complex in real position")
        if not isnum(v):
            raise CannotEval("not a number")
        return v

    def closed(self, x):
        for f in free(x):
            if f.kind in ("bv", "mu", "fv"):
                return False
        return True

    def poly(self, p):
        self.tick()
        cl = self.closed(p)
        if cl:
            r = self.memo.get(p)
            if r is not None:
                return r
        re = 0
        im = 0
        cplx = False
        pl = PLANS.get(p)
        if pl is None:
            pl = PLANS[p] = [(sorted(m, key=lambda z: (not is_ind(z[0]), z[0].id)), Q(c))
                             for m, c in p.t.items()]
        for m, c in pl:
            v = c
            isim = False
            # indicators first: they may cut the evaluation of undefined parts
            for a, e in m:
                if a.kind == "I":
                    isim = True
                    continue
                w = self.node(a)
                if isinstance(w, tuple):
                    raise CannotEval("structured atom")
                if not isnum(w):
                    raise CannotEval("atom")
                if w == 0:
                    if e < 0:
                        raise Undefined("division by zero")
                    v = 0
                    break
                v = v * (w if e == 1 else w ** e if e > 0 or isinstance(w, float) else Fraction(w) ** e)
            if isim:
                cplx = True
                im = im + v
            else:
                re = re + v
        r = ("C", re, im) if cplx else re
        if cl:
            self.memo[p] = r
        return r

    def node(self, n):
        if n.kind in ("bv", "mu", "fv"):
            return self.atomvar(n)
        self.tick()
        cl = self.closed(n)
        if cl:
            r = self.memo.get(n)
            if r is not None:
                return r
        r = self.node_(n)
        if cl:
            self.memo[n] = r
        return r

    def atomvar(self, n):
        if n in self.env:
            return self.env[n]
        if n.kind == "mu":
            raise CannotEval("open state variable")
        return self.leafval(("free", n.id), "nat" if n in NONNEG else "int")

    def bind(self, node, j, v):
        self.env[T("bv", blevel(node), j)] = v

    def rng_of(self, n):
        k = self.num(n)
        if isinstance(k, float):
            k = round(k)
        if k.denominator != 1:
            raise CannotEval("fractional range")
        if k > 400:
            raise CannotEval("large range")
        return range(int(k))

    def base_key(self, base):
        k = base[0]
        if k == "elem":
            s = base[1]
            i = self.num(base[2])
            if s.kind == "ssym":
                return ("elem", self.ssym_key(s), freeze(i))
            raise CannotEval("element of " + s.kind)
        if k == "app":
            return ("app", base[1], freeze(tuple(self.ev(a) for a in base[2])))
        if k in ("var", "uninit"):
            return base
        return tuple(freeze(self.ev(b)) if isinstance(b, (Node, Poly, tuple)) else b
                     for b in base)

    def ssym_key(self, s):
        return (self.base_key(s.args[0]), s.args[1])

    def by_base(self, base, path):
        """value when the base denotes an evaluated object, else None"""
        if base[0] == "mu":
            n = base[1]
            if n in self.env:
                return self.follow(self.env[n], path)
            raise CannotEval("open state variable")
        if base[0] == "opq" or (base[0] == "elem" and base[1].kind != "ssym"):
            s = self.ev(base[1])
            return self.follow(self.pick(s, self.num(base[2])), path)
        if base[0] == "elem":
            if determined(base[1].args[0]):
                s = self.ev(base[1])
                return self.follow(self.pick(s, self.num(base[2])), path)
        return None

    def pick(self, s, i):
        if isinstance(i, float):
            i = round(i)
        if not isinstance(s, list):
            raise CannotEval("not a sequence")
        if i.denominator != 1 or i < 0 or i >= len(s):
            raise CannotEval("index out of range")
        return s[int(i)]

    def inside(self, s, i):
        return i == int(i) and 0 <= i < len(s)

    def follow(self, v, path):
        for p in path:
            if p == "re":
                v = v[1] if isinstance(v, tuple) and v[0] == "C" else v
            elif p == "im":
                v = v[2] if isinstance(v, tuple) and v[0] == "C" else 0
            elif isinstance(v, list) and p.isdigit():
                v = self.pick(v, int(p))
            elif isinstance(v, tuple) and v and v[0] == "R":
                for nme, x in v[2]:
                    if nme == p or (p == "base" and nme.startswith("__base:")):
                        v = x
                        break
                else:
                    raise CannotEval("field")
            else:
                raise CannotEval("path")
        return v

    def realfn(self, f, args):
        if f in REALFN and len(args) == 1 and isinstance(args[0], Poly):
            x = self.num(args[0])
            try:
                r = REALFN[f](float(x))
            except (ValueError, OverflowError):
                raise CannotEval(f)
            q = round(r)
            if isinstance(x, RAT) and f == "sqrt" and q * q == x:
                return q
            return r
        if f in ("abs",) and len(args) == 1:
            return abs(self.num(args[0]))
        if f == "pow" and len(args) == 2:
            try:
                r = float(self.num(args[0])) ** float(self.num(args[1]))
            except (ValueError, OverflowError, ZeroDivisionError):
                raise CannotEval(f)
            if isinstance(r, complex):
                raise CannotEval(f)
            return r
        if f in ("bitand", "bitor", "bitxor", "sdiv", "smod"):
            x, y = self.num(args[0]), self.num(args[1])
            if x != int(x) or y != int(y):
                raise CannotEval(f)
            x, y = int(x), int(y)
            if f == "bitand":
                return x & y
            if f == "bitor":
                return x | y
            if f == "bitxor":
                return x ^ y
            if y == 0:
                raise CannotEval(f)
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y > 0) else -q
            return q if f == "sdiv" else x - q * y
        if f == "strfill":
            return chr(int(self.num(args[1])) & 255) * int(self.num(args[0]))
        if f == "strrange" or f.startswith(("lib:", "limits_")):
            # functions with a meaning that is not modelled
            raise CannotEval(f)
        if f == "atan2":
            return math.atan2(float(self.num(args[0])), float(self.num(args[1])))
        if f == "hypot":
            return math.hypot(float(self.num(args[0])), float(self.num(args[1])))
        if f == "fmod":
            try:
                return math.fmod(float(self.num(args[0])), float(self.num(args[1])))
            except ValueError:
                raise CannotEval(f)
        return None

    def node_(self, n):
        k = n.kind
        a = n.args
        if k == "leaf":
            base, path, sort = a
            if base == ("var", "pi"):
                return math.pi
            if base == ("var", "stream_good"):
                return 1
            if base == ("var", "threads"):
                return 1 + self.leafval((base, ()), "nat")
            if base == ("var", "thread"):
                n = 1 + self.leafval((("var", "threads"), ()), "nat")
                return self.leafval((base, ()), "nat") % n
            v = self.by_base(base, path)
            if v is not None:
                return v
            if base[0] == "app":
                if not path:
                    r = self.realfn(base[1], base[2])
                    if r is not None:
                        return r
                    if base[1] == "rank":
                        v = self.ev(base[2][0])
                        if isinstance(v, str):
                            return terms.str_rank_const(v)
                        raise CannotEval("rank")
                    if base[1] in ("to_string", "real_text"):
                        v = self.ev(base[2][0])
                        if isinstance(v, (int, Fraction, float)):
                            return numtext(v)
                    if base[1] == "text":
                        return self.text(self.ev(base[2][0]))
                    if base[1] == "strlen":
                        return len(self.ev(base[2][0]))
            if sort == "int":
                sort = "nat" if n in NONNEG else "int"
            return self.leafval((self.base_key(base), path), sort)
        if k == "ssym":
            v = self.by_base(a[0], a[1])
            if v is not None:
                return v
            key = self.ssym_key(n)
            L = self.leafval(("len", key), "len")
            out = []
            for i in range(int(L)):
                out.append(self.ev(mk_symval(a[2], ("elem", n, P(i)))))
            return out
        if k == "fnsym":
            return ("F", self.base_key(a[0]), a[1])
        if k == "len":
            q = a[0]
            if q.kind == "ssym" and self.by_base(q.args[0], q.args[1]) is None:
                return self.leafval(("len", self.ssym_key(q)), "len")
            return len(self.seq(q))
        if k == "ge":
            f = self.num(a[0])
            if isinstance(f, float):
                if abs(f - float(a[1])) < EPS * (1 + abs(f)):
                    return (0 if a[2] else 1)
            return (1 if (f > a[1] if a[2] else f >= a[1]) else 0)
        if k == "eq":
            return (1 if val_eq(self.ev(a[0]), self.ev(a[1])) else 0)
        if k == "lt":
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, str) and isinstance(y, str):
                return (1 if x < y else 0)
            raise CannotEval("order")
        if k == "odd":
            return int(self.num(a[0])) % 2
        if k == "idiv":
            x, y = self.num(a[0]), self.num(a[1])
            if y == 0:
                raise CannotEval("div 0")
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y > 0) else -q
        if k == "imod":
            x, y = self.num(a[0]), self.num(a[1])
            if y == 0:
                raise CannotEval("mod 0")
            r = abs(x) % abs(y)
            return r if x >= 0 else -r
        if k == "inv":
            x = self.num(a[0])
            if x == 0 or (isinstance(x, float) and abs(x) < 1e-12):
                raise Undefined("1/0")
            return 1 / x if isinstance(x, float) else Fraction(1) / x
        if k == "round":
            x = self.num(a[0])
            if isinstance(x, float):
                if abs(abs(x) % 1 - 0.5) < 1e-7:
                    raise CannotEval("rounding boundary")
                return round(x)
            return (math.floor(x + Fraction(1, 2)) if x >= 0
                    else -math.floor(-x + Fraction(1, 2)))
        if k == "floor":
            x = self.num(a[0])
            if isinstance(x, float) and abs(x - round(x)) < 1e-7:
                raise CannotEval("rounding boundary")
            return math.floor(x)
        if k == "trunc":
            x = self.num(a[0])
            if isinstance(x, float):
                q = round(x)
                if abs(x - q) < 1e-7:
                    return q
            return int(x)
        if k == "I":
            return ("C", 0, 1)
        if k == "sum":
            t = None
            for i in self.rng_of(a[1]):
                self.bind(n, 0, i)
                v = self.ev(a[2])
                t = v if t is None else cadd(t, v)
            return 0 if t is None else t
        if k == "any":
            for i in self.rng_of(a[0]):
                self.bind(n, 0, i)
                if self.num(a[1]) != 0:
                    return 1
            return 0
        if k == "first":
            r = self.rng_of(a[0])
            for i in r:
                self.bind(n, 0, i)
                if self.num(a[1]) != 0:
                    return i
            return max(len(r), 0)
        if k == "trip":
            for i in range(400):
                self.bind(n, 0, i)
                if self.num(a[0]) == 0:
                    return i
            raise CannotEval("long loop")
        if k in ("fold", "sfold"):
            pos = a[1] if k == "fold" else a[0]
            st = [self.ev(x) for x in a[3]]
            for i in self.rng_of(a[2]):
                self.bind(n, 0, i)
                for q, v in enumerate(st):
                    self.bind(n, q + 1, v)
                st = [self.ev(b) for b in a[4]]
            return st[pos]
        if k == "str":
            return a[0]
        if k == "strcat":
            return "".join(self.ev(x) for x in (a[0] if len(a) == 1 else a))
        if k == "rec":
            return ("R", a[0], tuple((nm, self.ev(v)) for nm, v in a[1]))
        if k == "vite":
            return self.ev(a[1]) if self.num(a[0]) != 0 else self.ev(a[2])
        if k == "iter":
            return ("it", self.ev(a[0]) if isinstance(a[0], Node) else a[0],
                    freeze(self.ev(a[1])), a[2])
        if k == "ref":
            return ("ref", self.cellkey(a[0]), freeze(self.ev(a[1])))
        if k in ("null", "undef", "fnref", "clo", "cell"):
            return ("N", n.id)
        if k in ("otxt", "onum", "refw", "backins", "ostrit"):
            if k == "otxt":
                return ("otxt", self.ev(a[0]))
            return (k,) + tuple(freeze(self.ev(x)) for x in a)
        if values.is_seq(n):
            return self.seq_(n)
        raise CannotEval(k)

    def cellkey(self, c):
        if c.kind == "cell" and c.args and c.args[0] == "s":
            return ("s", self.base_key(c.args[1]), c.args[2])
        return ("c", c.id)

    def text(self, items):
        out = ""
        for it in items:
            if isinstance(it, tuple) and it and it[0] == "otxt":
                out += it[1]
            elif isinstance(it, str):
                out += it
            elif isinstance(it, tuple) and it and it[0] == "onum" and it[2] != "char":
                out += numtext(it[1])
            else:
                raise CannotEval("text of a value")
        return out

    def seq(self, s):
        v = self.ev(s)
        if not isinstance(v, list):
            raise CannotEval("sequence expected")
        return v

    def seq_(self, n):
        k = n.kind
        a = n.args
        if k == "sone":
            return [self.ev(a[0])]
        if k == "scat":
            out = []
            for p in a[0]:
                out.extend(self.seq(p))
            return out
        if k == "sfun":
            out = []
            for i in self.rng_of(a[0]):
                self.bind(n, 0, i)
                out.append(self.ev(a[1]))
            return out
        if k == "sfor":
            out = []
            for i in self.rng_of(a[0]):
                self.bind(n, 0, i)
                out.extend(self.seq(a[1]))
            return out
        if k == "sif":
            return self.seq(a[1]) if self.num(a[0]) != 0 else self.seq(a[2])
        if k == "supd":
            s = list(self.seq(a[0]))
            # writes outside are obligations of their own; joining the branches of
            # a condition leaves writes of the old element behind
            i = self.num(a[1])
            if self.inside(s, i):
                s[int(i)] = self.ev(a[2])
            return s
        if k == "smap":
            s = list(self.seq(a[0]))
            ns = a[1] if isinstance(a[1], tuple) else (a[1],)

            def go(d):
                if d == len(ns):
                    i = self.num(a[2])
                    if self.inside(s, i):
                        s[int(i)] = self.ev(a[3])
                    return
                for i in self.rng_of(ns[d]):
                    self.bind(n, d, i)
                    go(d + 1)
            go(0)
            return s
        if k == "sacc":
            s = list(self.seq(a[0]))
            for i in self.rng_of(a[1]):
                self.bind(n, 0, i)
                j = self.num(a[2])
                if self.inside(s, j):
                    s[int(j)] = cadd(s[int(j)], self.ev(a[3]))
            return s
        if k == "ssort":
            s = list(self.seq(a[0]))
            b0, b1 = T("bv", blevel(n), 0), T("bv", blevel(n), 1)

            def less(x, y):
                self.env[b0], self.env[b1] = x, y
                return self.num(a[2]) != 0

            def cmp(x, y):
                if less(x, y):
                    return -1
                if less(y, x):
                    return 1
                return 0
            return sorted(s, key=functools.cmp_to_key(cmp))
        if k == "srem":
            s = list(self.seq(a[0]))
            i = self.num(a[1])
            self.pick(s, i)
            del s[int(i)]
            return s
        raise CannotEval(k)


def cadd(x, y):
    if isnum(x) and isnum(y):
        return x + y
    rx, ix = (x[1], x[2]) if isinstance(x, tuple) else (x, 0)
    ry, iy = (y[1], y[2]) if isinstance(y, tuple) else (y, 0)
    return ("C", rx + ry, ix + iy)


class Search:
    """valuations that satisfy the facts of an obligation"""

    def __init__(self, facts, conds, goal_terms, seed, deadline):
        self.rng = random.Random(seed)
        self.facts = facts
        self.conds = list(conds)
        self.extra = []
        self.near = []
        self.deadline = deadline
        strs, consts = set(), set()
        seen = set()
        for x in [f for f, _ in facts] + list(conds) + list(goal_terms):
            collect_strings(x, strs, seen)
        seen = set()
        for x in [f for f, _ in facts] + list(conds) + list(goal_terms):
            collect_consts(x, consts, seen)
        base = ["a", "b", "c", "aa", "z"]
        self.strings = sorted(strs) + [b for b in base if b not in strs]
        ints = set(i for i in (-3, -2, -1, 0, 1, 2, 3, 4, 5, 6))
        for c in consts:
            if c.denominator == 1 and abs(c) <= 40:
                ints.add(c)
                ints.add(c + 1)
        self.ints = sorted(ints)
        reals = set(i for i in (-2, -1, 0, 1, 2, 3))
        reals |= {Fraction(1, 2), Fraction(-1, 2), Fraction(1, 3), Fraction(-5, 3), Fraction(7, 5),
                  Fraction(-1, 4), Fraction(1, 5), Fraction(9, 4), Fraction(-13, 4), Fraction(17, 7), Fraction(11, 3)}
        for c in consts:
            if abs(c) <= 40:
                reals.add(c)
        self.reals = sorted(reals)

    def holds(self, m):
        """list of violated constraint indices with the leaves they read"""
        bad = []
        n = 0
        for p, s in self.facts + self.near + [(c, None) for c in self.conds + self.extra]:
            rec = m.done.get((p, s))
            if rec is None or any(m.val.get(k) != v for k, v in rec[1]):
                m.touched = set()
                m.memo = {}
                try:
                    v = m.num(p)
                    if s is None:
                        ok = v != 0
                    else:
                        ok = v > 0 if s else v >= 0
                        if isinstance(v, float) and abs(v) < 1e-9:
                            ok = not s
                except CannotEval:
                    ok = False
                rec = m.done[p, s] = ok, [(k, m.val[k]) for k in m.touched]
            if not rec[0]:
                bad.append((n, rec[1]))
            n += 1
        m.memo = {}
        return bad

    def differing(self, a, b):
        """a random pair of corresponding numbers that differ"""
        for _ in range(40):
            if isinstance(a, Poly) or isinstance(b, Poly):
                return (a, b) if isinstance(a, Poly) and isinstance(b, Poly) else None
            if isinstance(a, Node) and isinstance(b, Node):
                if a.kind != b.kind or a.kind in terms.BINDERS:
                    return None
                a, b = a.args, b.args
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
                return None
            d = [(x, y) for x, y in zip(a, b) if x != y]
            if not d:
                return None
            a, b = self.rng.choice(d)
        return None

    def visible(self, p, depth=3):
        """factors that keep a randomly chosen summand of p from vanishing"""
        ms = [m for m in p.t if m]
        if not ms or depth == 0:
            return []
        out = []
        for x, e in self.rng.choice(ms):
            if is_ind(x) and x.kind == "ge":
                f, c, strict = x.args[:3]
                self.near.append((f - P(c), strict))
                if not strict and self.rng.random() < .4:
                    self.near.append((P(c) - f, False))
            elif is_ind(x):
                out.append(P(x))
            elif x.kind == "sum":
                k = P(self.rng.randrange(3))
                self.near.append((x.args[1] - k - C1, False))
                out += self.visible(subst(x.args[2], {T("bv", blevel(x), 0): k}), depth - 1)
        return out

    def directed(self, ob):
        if ob.a is None:
            return [C1 - ob.cond] if self.rng.random() < .25 else self.visible(ob.cond)
        d = self.differing(ob.a, ob.b)
        if d is None:
            return []
        return self.visible(d[0] - d[1])

    def model(self, extra=()):
        m = Model(self.rng, self.strings, self.ints, self.reals)
        self.extra = list(extra)
        return self.repair(m, 120)

    def repair(self, m, steps):
        bad = self.holds(m)
        for step in range(steps):
            if not bad:
                return m
            if time.time() > self.deadline:
                return None
            i, tch = self.rng.choice(bad)
            keys = sorted((k for k, _ in tch), key=repr)
            if not keys:
                return None
            key = self.rng.choice(keys)
            old = m.val[key]
            cands = list(m.candidates(m.sort[key]))
            self.rng.shuffle(cands)
            cands = cands[:6]
            facts = self.facts + self.near
            if i < len(facts) and m.sort[key] in ("real", "int", "nat", "len", "vec"):
                try:
                    m.memo = {}
                    v = m.num(facts[i][0])
                    if isinstance(v, RAT):
                        for d in (v, -v, 1 - v, v - 1):
                            w = old + d
                            if not (m.sort[key] in ("int", "nat", "len") and w.denominator != 1
                                    or m.sort[key] in ("nat", "len") and w < 0
                                    or m.sort[key] == "len" and w > 40):
                                cands.append(w)
                except CannotEval:
                    pass
            best = None
            for c in cands:
                if c == old:
                    continue
                m.val[key] = c
                m.budget = 200000
                b2 = self.holds(m)
                sc = len(b2)
                if best is None or sc < best[0]:
                    best = (sc, c, b2)
                if sc < len(bad):
                    break
                if time.time() > self.deadline:
                    return None
            if best is None:
                continue
            if best[0] <= len(bad) or self.rng.random() < 0.15:
                m.val[key], bad = best[1], best[2]
            else:
                m.val[key] = old
        return None


def show_val(v):
    if v is UNDEF:
        return "undefined (division by zero)"
    if isinstance(v, RAT):
        return str(v)
    if isinstance(v, float):
        return "%.9g" % v
    if isinstance(v, tuple):
        if v and v[0] == "C":
            return "(%s, %s)" % (show_val(v[1]), show_val(v[2]))
        if v and v[0] == "R":
            return "{" + ", ".join("%s=%s" % (n, show_val(x)) for n, x in v[2]) + "}"
        return "(" + ", ".join(show_val(x) for x in v) + ")"
    if isinstance(v, list):
        return "[" + ", ".join(show_val(x) for x in v) + "]"
    return str(v)


def key_name(k):
    if isinstance(k, tuple) and k and k[0] == "len":
        return "len(" + key_name(k[1]) + ")"
    if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple):
        b, path = k
        s = "?"
        if b[0] == "elem":
            s = "%s[%s]" % (key_name(b[1]), b[2])
        elif b[0] == "var":
            s = str(b[1])
        elif b[0] == "app":
            s = "%s(%s)" % (b[1], ", ".join(show_val(x) for x in b[2]))
        else:
            s = show_val(b)
        return s + "".join("." + str(p) for p in path)
    return str(k)


def refute(ob, seed, seconds=4.0, want=3000):
    """a separating valuation of the obligation, or None"""
    deadline = time.time() + seconds
    two = ob.a is not None
    goal = (ob.a, ob.b) if two else (ob.cond,)
    for g in goal:
        if has_unk(g):
            return None
    conds = [c for c in ob.conds if not has_unk(c)]
    if len(conds) != len(ob.conds) or any(has_unk(f) for f, _ in ob.facts):
        return None
    S = Search(ob.facts, conds, goal, seed, deadline)
    tried = 0
    fails = 0

    def side(m, t):
        try:
            return m.ev(t)
        except Undefined:
            return UNDEF

    def separates(m):
        m.memo = {}
        m.touched = set()
        # small valuations first: large ones take long
        m.budget = min(400000, 25000 << min(8, tried // 12))
        try:
            if two:
                x, y = side(m, ob.a), side(m, ob.b)
                if x is UNDEF or y is UNDEF:
                    bad = (x is UNDEF) != (y is UNDEF)
                else:
                    bad = not val_eq(x, y)
            else:
                x = m.num(ob.cond)
                y = 1
                bad = num_eq(x, 0)
        except CannotEval:
            return None
        if not bad:
            return None
        tch = set(m.touched)
        # values met late may have created leaves that a fact restricts
        S.extra, S.near = [], []
        if S.holds(m):
            m.touched = tch
            return None
        wit = {key_name(k): show_val(v) for k, v in m.val.items()}
        return {"witness": wit, "left": show_val(x), "right": show_val(y), "samples": tried}

    while tried < want and time.time() < deadline and fails < 400:
        extra = []
        S.near = []
        if tried % 3 or fails % 2:
            try:
                extra = S.directed(ob)
            except (Unsupported, KeyError, AttributeError):
                extra = []
        m = S.model(extra)
        if m is None:
            fails += 1
            continue
        tried += 1
        r = separates(m)
        if r:
            return r
        # the neighbourhood of the valuation
        for step in range(6):
            if time.time() > deadline or m.budget < 0:
                break
            keys = sorted(m.touched, key=repr)
            if not keys:
                break
            old = dict(m.val)
            for _ in range(S.rng.choice((1, 1, 2))):
                key = S.rng.choice(keys)
                same = [m.val[k] for k in keys if m.sort[k] == m.sort[key] and k != key]
                m.val[key] = S.rng.choice(same) if same and S.rng.random() < .6 else \
                    S.rng.choice(m.candidates(m.sort[key]))
            S.extra, S.near = [], []
            if S.holds(m):
                m.val = old
                m.touched = set(keys)
                continue
            r = separates(m)
            if r:
                return r
    return None
