"""Meaning of the standard library (and of the obligation vocabulary `vf::`)
in the value-graph domain."""
from fractions import Fraction
from terms import *
import terms
from values import *
import values
import interp

STREAMS = {"std::basic_ostream", "std::basic_ostringstream", "std::basic_stringstream",
           "std::basic_ofstream", "std::basic_iostream"}
SEQS = {"std::vector", "std::list", "std::deque"}
FIXED = {"std::array"}
EMPTYSTREAM = mk_rec("stream", [("out", EMPTY)])


def I_():
    raise NotImplementedError


# -- small helpers ------------------------------------------------------------
class A:
    """argument access"""

    def __init__(self, Ip, args):
        self.I, self.args = Ip, args

    def __len__(self):
        return len(self.args)

    def val(self, i):
        v, gl = self.args[i]
        return self.I.load(v) if gl else v

    def ref(self, i):
        v, gl = self.args[i]
        return v if gl else self.I.alloc(v)


def tmpl_of(rec):
    if rec is None:
        return None
    t = rec.get("tmpl") or rec["name"]
    return t.replace("std::__cxx11::", "std::")


def strip_q(q):
    """qualified name without template arguments"""
    out, d = "", 0
    for i, ch in enumerate(q):
        if ch == "<" and not q[:i].endswith("operator") and not q[:i].endswith("operator<"):
            d += 1
        elif ch == ">" and d > 0:
            d -= 1
        elif d == 0:
            out += ch
    return out.replace("std::__cxx11::", "std::")


def cref(Ip, ref):
    """the container a reference denotes, seen through inheritance"""
    while True:
        v = Ip.load(ref)
        if isinstance(v, Node) and v.kind == "rec":
            hit = [n for n, x in v.args[1] if n.startswith("__base:")]
            if len(hit) == 1:
                ref = interp.ref_ext(ref, ("f", hit[0]))
                continue
        return ref


def seq_of(Ip, ref):
    v = Ip.load(ref)
    if not is_seq(v):
        if isinstance(v, Node) and v.kind == "vite":
            raise Unsupported("container value")
        raise Unsupported("container expected, got %s" % getattr(v, "kind", v))
    return v


def elem_t(rec, fn=None):
    k, d = classify(rec["name"])
    if k == "seq":
        return strip_type(d)
    if k == "arr":
        return strip_type(d[0])
    return None


def leftover(t):
    """arbitrary elements"""
    return T("ssym", ("var", "leftover%d" % next(terms._fresh)), (), t)


def begin_it(Ip, ref):
    return T("iter", ref, C0, False)


def end_it(Ip, ref):
    return T("iter", ref, length(seq_of(Ip, ref)), False)


def in_range(Ip, i, s, what):
    L = length(s)
    Ip.need("range", GE0(i) * LT(i, L), what)


def construct_value(Ip, t, args):
    """value of type t built from constructor arguments"""
    a = A(Ip, args)
    k, d = classify(t)
    if len(args) == 1:
        v = a.val(0)
        if k == "rec":
            r = TY.records[d]
            if isinstance(v, Node) and v.kind == "rec" and v.args[0] == r["name"]:
                return v
            if isinstance(v, Node) and v.kind in ("leaf", "vite"):
                return v
        elif k == "refw":
            return T("refw", a.ref(0)) if False else a.ref(0)
        elif k == "real" or k == "int" or k == "ind":
            return v
        elif k in ("complex", "str", "seq", "arr", "tuple", "pair", "fn", "vec", "ptr"):
            if k == "seq" and isinstance(v, Poly):
                return SFUN(v, lambda i: Ip.default_value(d, True))
            return v
        else:
            return v
    if not args:
        return Ip.default_value(t, True)
    if k == "rec":
        for i in Ip.ctors().get(d, ()):
            f = Ip.fns[i]
            if len(f["params"]) == len(args) and f.get("special") not in ("copy", "move") and \
                    f.get("body") is not None:
                if ctor_fits(Ip, f, args):
                    return Ip.construct_user(f, d, args)
        raise Unsupported("emplacing %s" % t)
    if k == "complex":
        return a.val(0) + P(I) * a.val(1)
    if k == "pair":
        return mk_rec(strip_type(t), [("first", a.val(0)), ("second", a.val(1))])
    if k == "tuple":
        return mk_rec(strip_type(t), [(str(i), a.val(i)) for i in range(len(args))])
    if k == "seq" and len(args) == 2:
        return seq_ctor2(Ip, a)
    raise Unsupported("constructing " + t)


def ctor_fits(Ip, f, args):
    for p, (v, gl) in zip(f["params"], args):
        v = Ip.load(v) if gl else v
        k, d = classify(p["t"])
        if isinstance(v, Poly) != (k in ("ind", "int", "real", "complex", "vec")):
            return False
    return True


def seq_ctor2(Ip, a):
    x, y = a.val(0), a.val(1)
    if isinstance(x, Node) and x.kind == "iter":
        return range_values(Ip, x, y)
    return SFUN(x, lambda i: y)


def range_values(Ip, f, l):
    """values in [first, last)"""
    if f.kind == "str":
        raise Unsupported("character range")
    Ip.same_container(f, l)
    ref, a, rev = f.args
    b = l.args[1]
    s = seq_of(Ip, ref)
    if rev:
        lo, hi = b, a
    else:
        lo, hi = a, b
    L = length(s)
    Ip.need("range", GE0(lo) * LE(lo, hi) * LE(hi, L), "iterator range lies inside its container")
    v = slice_(s, lo, hi)
    return reverse(v) if rev else v


def range_len(Ip, f, l):
    d = l.args[1] - f.args[1]
    return -d if f.args[2] else d


def it_add(it, n):
    ref, i, rev = it.args
    return T("iter", ref, i - n if rev else i + n, rev)


def push(Ip, ref, v):
    s = seq_of(Ip, ref)
    Ip.store(ref, scat([s, T("sone", v)]))


def out_write(Ip, out, v):
    if out.kind == "backins":
        push(Ip, out.args[0], v)
        if out.args[1]:
            Ip.grows(out.args[0])
        return out
    if out.kind == "iter":
        Ip.store(Ip.iter_ref(out), v)
        return it_add(out, C1)
    if out.kind == "ostrit":
        stream_put(Ip, out.args[0], v, out.args[2])
        if out.args[1] is not None and out.args[1].kind == "str" and out.args[1].args[0] != "":
            stream_put(Ip, out.args[0], out.args[1], "const char *")
        return out
    raise Unsupported("output iterator " + out.kind)


def loop_n(Ip, n, f):
    c = Ip.alloc(C0, "long")

    def cond():
        return LT(Ip.load(c), n)

    def inc():
        Ip.store(c, Ip.load(c) + 1)
    Ip.loop(cond, lambda: f(Ip.load(c)), inc)


def call_pred(Ip, f, vals):
    v = Ip.call_value(f, [x if isinstance(x, tuple) else (x, False) for x in vals], "bool")
    if not isinstance(v, Poly):
        raise Unsupported("predicate value")
    return v


# -- equality / ordering of values through the program's own operators ----------
def find_op(Ip, op, t1, t2=None):
    key = (op, t1, t2)
    cache = Ip.__dict__.setdefault("opcache", {})
    if key in cache:
        return cache[key]
    res = None
    rid = TY.by_name.get(t1)
    for i, f in Ip.fns.items():
        if f["name"] != "operator" + op or f.get("body") is None:
            continue
        ps = f["params"]
        if f.get("method"):
            if f.get("cls") == rid and len(ps) == (1 if t2 is not None else 0):
                if t2 is None or strip_type(ps[0]["t"]) == t2:
                    res = (i, True)
                    break
        elif len(ps) == 2 and strip_type(ps[0]["t"]) == t1 and strip_type(ps[1]["t"]) == t2:
            res = (i, False)
            break
    cache[key] = res
    return res


def type_of(v):
    if isinstance(v, Node) and v.kind == "rec":
        return v.args[0]
    if isinstance(v, Node) and v.kind == "vite":
        return type_of(v.args[1])
    return None


def binop(Ip, op, a, b):
    ta, tb = type_of(a), type_of(b)
    if ta is not None and classify(ta)[0] == "rec":
        h = find_op(Ip, op, ta, tb)
        if h is not None:
            fid, mem = h
            if mem:
                return Ip.call_fn(fid, Ip.alloc(a, ta), [(Ip.alloc(b, tb), True)])
            return Ip.call_fn(fid, None, [(Ip.alloc(a, ta), True), (Ip.alloc(b, tb), True)])
        if op == "!=":
            return C1 - binop(Ip, "==", a, b)
        if op == ">":
            return binop(Ip, "<", b, a)
        raise Unsupported("operator%s of %s" % (op, ta))
    if ta is not None and classify(ta)[0] in ("tuple", "pair"):
        if op in ("==", "!="):
            r = C1
            for (n, x), (m, y) in zip(a.args[1], b.args[1]):
                r = r * binop(Ip, "==", x, y)
            return r if op == "==" else C1 - r
        if op in ("<", ">"):
            if op == ">":
                a, b = b, a
            r = C0
            eq = C1
            for (n, x), (m, y) in zip(a.args[1], b.args[1]):
                r = r + eq * binop(Ip, "<", x, y)
                eq = eq * (C1 - binop(Ip, "<", x, y)) * (C1 - binop(Ip, "<", y, x))
            return r
    if is_seq(a) and is_seq(b):
        if op in ("==", "!="):
            e = seq_equal(Ip, a, b)
            return e if op == "==" else C1 - e
    return Ip.compare(op, a, b)


def seq_equal(Ip, a, b):
    if a is b:
        return C1
    la, lb = length(a), length(b)
    e = EQ(la, lb)
    if e.const() == 0:
        return C0
    CTX.push()
    CTX.assume(e)
    n = len(CTX.stack)
    try:
        r = all_range(Ip, la, lambda i: binop(Ip, "==", select(a, i), select(b, i)))
    except Unsupported:
        if not has_text(a) and not has_text(b):
            raise
        # loops that write: the whole text
        while len(CTX.stack) > n:
            CTX.pop()
        return terms.str_eq(stream_str(Ip, a), stream_str(Ip, b))
    finally:
        CTX.pop()
    return e * r


def has_text(s, depth=0):
    """does the sequence hold what was written to a stream"""
    if not isinstance(s, Node) or depth > 6:
        return False
    if s.kind in ("otxt", "onum"):
        return True
    if s.kind == "scat":
        return any(has_text(x, depth + 1) for x in s.args[0])
    if s.kind in ("sone", "sfor", "sfun", "sif"):
        return any(has_text(x, depth + 1) for x in s.args)
    return False


def all_range(Ip, n, f):
    c = n.const()
    if c is not None and c <= 12:
        r = C1
        for i in range(int(c)):
            r = r * f(P(i))
        return r
    v = fresh_var()
    st, g = Ip.st, Ip.guard
    Ip.st = dict(st)
    try:
        body = with_range(v, n, lambda: f(P(v)))
    finally:
        Ip.st, Ip.guard = st, g
    return ALL(v, n, body)


# -- streams --------------------------------------------------------------------
def is_stream_type(t):
    b, _ = split_targs(strip_type(t))
    return b.replace("std::__cxx11::", "std::") in STREAMS


def stream_ref(Ip, r):
    v = Ip.load(r)
    if isinstance(v, Node) and v.kind == "rec" and any(n == "out" for n, _ in v.args[1]):
        return r
    if isinstance(v, Node) and v.kind in ("leaf",):
        Ip.store(r, EMPTYSTREAM)
        return r
    if isinstance(v, Node) and v.kind == "rec":
        Ip.store(r, EMPTYSTREAM)
        return r
    raise Unsupported("stream")


def stream_put(Ip, r, v, t):
    r = stream_ref(Ip, r)
    ty = type_of(v)
    if ty is not None and classify(ty)[0] == "rec":
        for i, f in Ip.fns.items():
            if f["name"] == "operator<<" and f.get("body") is not None and len(f["params"]) == 2 \
                    and strip_type(f["params"][1]["t"]) == ty:
                Ip.call_fn(i, None, [(r, True), (Ip.alloc(v, ty), True)])
                return
        raise Unsupported("no operator<< for " + ty)
    o = rec_get(Ip.load(r), "out")
    Ip.store(T("ref", r.args[0], r.args[1] + (("f", "out"),)) if r.kind == "ref" else r,
             out_cat(o, out_item(Ip, v, t)))


# how numbers are printed by streams, as functions to texts
TEXTS = {"int": "to_string", "real": "real_text", "char": "char_text"}


def out_item(Ip, v, t):
    if isinstance(v, Node):
        if v.kind == "str":
            return [] if v.args[0] == "" else [T("otxt", v.args[0])]
        if v.kind == "strcat":
            out = []
            for x in v.args[0]:
                out += out_item(Ip, x, t)
            return out
        if v.kind == "iter" and isinstance(v.args[1], Poly) and not v.args[1].t and \
                isinstance(v.args[0], Node) and v.args[0].kind in ("str", "vite", "strcat"):
            return out_item(Ip, v.args[0], t)
        if v.kind == "leaf" and v.args[0][0] == "app" and v.args[0][1] in TEXTS.values():
            kind = [k for k, x in TEXTS.items() if x == v.args[0][1]][0]
            return [T("onum", v.args[0][2][0], kind)]
        return [v]
    if isinstance(v, Poly):
        k, d = classify(t)
        if k == "int" and d in ("char", "signed char", "unsigned char"):
            if v.const() is not None:
                return [T("otxt", chr(int(v.const()) & 255))]
            return [T("onum", v, "char")]
        kind = "real" if k in ("real", "complex") else "int"
        return [T("onum", v, kind)]
    raise Unsupported("stream output")


def out_cat(o, items):
    ps = parts(o)
    for it in items:
        if it.kind == "otxt" and ps and ps[-1].kind == "sone" and isinstance(
                ps[-1].args[0], Node) and ps[-1].args[0].kind == "otxt":
            ps[-1] = T("sone", T("otxt", ps[-1].args[0].args[0] + it.args[0]))
        else:
            ps.append(T("sone", it))
    return scat(ps)


def _stream_glue(a, b):
    if a.kind == "sone" and b.kind == "sone":
        x, y = a.args[0], b.args[0]
        if isinstance(x, Node) and isinstance(y, Node) and x.kind == "otxt" and y.kind == "otxt":
            return T("sone", T("otxt", x.args[0] + y.args[0]))
    return None


_old_glue = values.glue


def glue(a, b):
    return _stream_glue(a, b) or _old_glue(a, b)


values.glue = glue


def strcat(a, b):
    def ps(x):
        if x.kind == "strcat":
            return list(x.args[0])
        if x.kind == "str" and x.args[0] == "":
            return []
        return [x]
    out = []
    for p in ps(a) + ps(b):
        if out and out[-1].kind == "str" and p.kind == "str":
            out[-1] = T("str", out[-1].args[0] + p.args[0])
        else:
            out.append(p)
    if not out:
        return T("str", "")
    if len(out) == 1:
        return out[0]
    return T("strcat", tuple(out))


# -- dispatch ---------------------------------------------------------------------
METHODS = {}
FREE = {}


def method(tmpls, *names):
    def deco(f):
        for t in (tmpls if isinstance(tmpls, (list, tuple, set)) else [tmpls]):
            for n in names:
                METHODS[(t, n)] = f
        return f
    return deco


def free_fn(*names):
    def deco(f):
        for n in names:
            FREE[n] = f
        return f
    return deco


def call(Ip, fn, rec, this, args):
    if Ip.race is None:
        return call_model(Ip, fn, rec, this, args)
    saved, Ip.model = Ip.model, fn["name"]
    try:
        return call_model(Ip, fn, rec, this, args)
    finally:
        Ip.model = saved


def call_model(Ip, fn, rec, this, args):
    a = A(Ip, args)
    if rec is not None and this is not None:
        t = tmpl_of(rec)
        h = METHODS.get((t, fn["name"]))
        if h is not None:
            return h(Ip, fn, rec, this, a)
        if t == "std::reference_wrapper" and fn["name"].startswith("operator ") and \
                fn["name"].endswith("&"):
            return m_refget(Ip, fn, rec, this, a)
        if fn["name"] == "operator()":
            return Ip.call_value(this, args, fn["ret"])
        if "iterator" in t or t.endswith("_iterator"):
            return iter_method(Ip, fn, this, a)
        if is_stream_type(rec["name"]) or t in ("std::basic_ios", "std::ios_base"):
            return stream_method(Ip, fn, this, a)
        if rec.get("lambda"):
            return Ip.call_value(this, args, fn["ret"])
        if fn["name"] in ("~" + t.split("::")[-1],):
            return None
        if fn["name"] == "operator=" and len(args) == 1:
            Ip.store(this, a.val(0))
            return this
        raise Unsupported("method %s::%s" % (t, fn["name"]))
    q = strip_q(fn["qual"])
    h = FREE.get(q)
    if h is None and rec is not None:
        h = FREE.get(tmpl_of(rec) + "::" + fn["name"])
    if h is None and q.startswith("std::"):
        # inline namespaces
        h = FREE.get("std::" + q.split("::")[-1])
    if h is None:
        h = FREE.get(fn["name"]) if not q.startswith("std::") else None
    if h is None:
        if not q.startswith("std::") and this is None and args and all(
                classify(p["t"])[0] in ("ind", "int", "real")
                for p in fn["params"]) and \
                classify(fn["ret"])[0] in ("ind", "int", "real"):
            # a library function of numbers
            # (special functions may have any values, as nothing depends on them)
            return mk_app(q if "bessel" in q else "lib:" + q,
                          [a.val(i) for i in range(len(args))], fn["ret"])
        raise Unsupported("function " + q)
    return h(Ip, fn, a)


def custom_copy(Ip, fn):
    return False


def default_std(Ip, r):
    t = tmpl_of(r)
    if is_stream_type(r["name"]):
        return EMPTYSTREAM
    return None


def construct(Ip, fn, t, args, exprs):
    a = A(Ip, args)
    k, d = classify(t)
    if is_stream_type(t):
        return EMPTYSTREAM
    b, targs = split_targs(strip_type(t))
    b = b.replace("std::__cxx11::", "std::")
    n = len([x for x in fn["params"]])
    if k == "seq":
        # a trailing allocator argument is irrelevant
        na = len(args)
        if na and fn["params"] and "allocator" in fn["params"][-1]["t"] and \
                "initializer_list" not in fn["params"][-1]["t"]:
            na -= 1
        if na == 0:
            return EMPTY
        x = a.val(0)
        if na == 1:
            if isinstance(x, Poly):
                if b.startswith("blaze"):
                    rest = leftover(strip_type(d))
                    return SFUN(x, lambda i: select(rest, i))
                return SFUN(x, lambda i: Ip.default_value(d, True))
            return x
        return seq_ctor2(Ip, a)
    if k == "str":
        if not args:
            return T("str", "")
        x = a.val(0)
        if isinstance(x, Node) and (Ip.is_str(x)):
            return x
        if isinstance(x, Node) and x.kind == "vite":
            return x
        if len(args) >= 2 and isinstance(x, Poly):
            return mk_app("strfill", [x, a.val(1)], "std::basic_string<char>")
        if isinstance(x, Node) and x.kind == "iter":
            text = Ip.load(x.args[0])
            one = len(args) == 1 or (len(args) == 2 and fn["params"] and
                                     "allocator" in fn["params"][-1]["t"])
            if one and isinstance(text, Node) and text.kind == "str" and \
                    isinstance(x.args[1], Poly) and not x.args[1].t:
                return text
            return mk_app("strrange", [text], "std::basic_string<char>")
        raise Unsupported("string constructor")
    if k == "complex":
        if not args:
            return C0
        re = a.val(0)
        if len(args) == 1:
            return re
        return re + P(I) * a.val(1)
    if k == "tuple":
        if not args:
            return Ip.default_value(t, True)
        vals = [a.val(i) for i in range(len(args))]
        if len(vals) == 1 and len(d) != 1:
            return retag(vals[0], strip_type(t))
        if len(vals) == 1 and type_of(vals[0]) and classify(type_of(vals[0]))[0] == "tuple":
            return retag(vals[0], strip_type(t))
        return mk_rec(strip_type(t), [(str(i), tuple_elem(Ip, d[i], a, i))
                                      for i in range(len(vals))])
    if k == "pair":
        if not args:
            return Ip.default_value(t, True)
        if len(args) == 1:
            return retag(a.val(0), strip_type(t))
        return mk_rec(strip_type(t), [("first", tuple_elem(Ip, d[0], a, 0)),
                                      ("second", tuple_elem(Ip, d[1], a, 1))])
    if k == "fn":
        if not args:
            return T("null")
        v = a.val(0)
        return v
    if k == "refw":
        return a.ref(0)
    if b in ("std::reverse_iterator",):
        x = a.val(0)
        if x.kind == "iter":
            if x.args[2]:
                return x
            return T("iter", x.args[0], x.args[1], True)
    if "iterator" in b and len(args) == 1:
        return a.val(0)
    if b == "std::ostream_iterator":
        return T("ostrit", a.ref(0), a.val(1) if len(args) > 1 else None, targs[0])
    if "iterator" in b and not args:
        return T("null")
    if b == "std::back_insert_iterator":
        v = cref(Ip, a.ref(0))
        return T("backins", v, over_vector(fn["params"][0]["t"]))
    if b in ("std::shared_ptr", "std::unique_ptr") and len(args) == 1:
        return a.val(0)
    if len(args) == 1 and type_of(a.val(0)) == strip_type(t):
        return a.val(0)
    if b.startswith("std::") and not args:
        return mk_rec(strip_type(t), [])
    raise Unsupported("construct " + t)


def tuple_elem(Ip, t, a, i):
    if t.endswith("&"):
        return a.ref(i)
    return a.val(i)


def retag(v, t):
    if v.kind == "rec":
        return T("rec", t, v.args[1])
    return v


# -- sequence containers ------------------------------------------------------------
VEC = ["std::vector", "std::list", "std::deque", "std::array", "std::initializer_list",
       "blaze::DynamicVector", "blaze::StaticVector", "blaze::CompressedVector"]
VARR = ["std::array", "blaze::StaticVector"]
DYN = ["std::vector", "std::list", "std::deque", "blaze::DynamicVector"]


@method(VEC, "size", "max_size", "capacity", "nonZeros")
def m_size(Ip, fn, rec, this, a):
    return length(seq_of(Ip, this))


@method(VEC, "empty")
def m_empty(Ip, fn, rec, this, a):
    return EQ(length(seq_of(Ip, this)), C0)


@method(VEC, "begin", "cbegin", "data")
def m_begin(Ip, fn, rec, this, a):
    seq_of(Ip, this)
    return begin_it(Ip, this)


@method(VEC, "end", "cend")
def m_end(Ip, fn, rec, this, a):
    return end_it(Ip, this)


@method(VEC, "rbegin", "crbegin")
def m_rbegin(Ip, fn, rec, this, a):
    return T("iter", this, length(seq_of(Ip, this)), True)


@method(VEC, "rend", "crend")
def m_rend(Ip, fn, rec, this, a):
    return T("iter", this, C0, True)


def refext(r, s):
    from interp import ref_ext
    return ref_ext(r, s)


@method(VEC, "operator[]", "at", "operator()")
def m_index(Ip, fn, rec, this, a):
    i = a.val(0)
    s = seq_of(Ip, this)
    in_range(Ip, i, s, "index lies inside the container")
    return refext(this, ("i", i))


@method(VEC, "front")
def m_front(Ip, fn, rec, this, a):
    s = seq_of(Ip, this)
    in_range(Ip, C0, s, "front() of a non-empty container")
    return refext(this, ("i", C0))


@method(VEC, "back")
def m_back(Ip, fn, rec, this, a):
    s = seq_of(Ip, this)
    i = length(s) - 1
    in_range(Ip, i, s, "back() of a non-empty container")
    return refext(this, ("i", i))


def over_vector(t):
    """a vector, or something derived from one"""
    t = strip_type(t.rstrip("&* "))
    if t.startswith("std::vector"):
        return True
    k, d = classify(t)
    r = TY.records.get(d) if k == "rec" else TY.records.get(t)
    return any(over_vector(b if isinstance(b, str) else b["t"]) for b in (r or {}).get("bases", []))


def grows(Ip, rec, this, only=False):
    if rec["name"].startswith("std::vector"):
        Ip.grows(this, only)


@method(DYN, "push_back", "append")
def m_push(Ip, fn, rec, this, a):
    push(Ip, this, a.val(0))
    grows(Ip, rec, this)


@method(DYN, "emplace_back")
def m_emplace(Ip, fn, rec, this, a):
    v = construct_value(Ip, elem_t(rec), a.args)
    push(Ip, this, v)
    grows(Ip, rec, this)
    return refext(this, ("i", length(seq_of(Ip, this)) - 1))


@method(DYN, "push_front", "emplace_front")
def m_push_front(Ip, fn, rec, this, a):
    v = construct_value(Ip, elem_t(rec), a.args)
    Ip.store(this, scat([T("sone", v), seq_of(Ip, this)]))


@method(DYN, "pop_back")
def m_pop(Ip, fn, rec, this, a):
    s = seq_of(Ip, this)
    n = length(s)
    Ip.need("range", GE0(n - 1), "pop_back() of a non-empty container")
    Ip.store(this, slice_(s, C0, n - 1))


@method(DYN, "pop_front")
def m_popf(Ip, fn, rec, this, a):
    s = seq_of(Ip, this)
    n = length(s)
    Ip.need("range", GE0(n - 1), "pop_front() of a non-empty container")
    Ip.store(this, slice_(s, C1, n))


@method(DYN, "clear")
def m_clear(Ip, fn, rec, this, a):
    seq_of(Ip, this)
    Ip.store(this, EMPTY)


@method(DYN, "reserve", "shrink_to_fit")
def m_reserve(Ip, fn, rec, this, a):
    grows(Ip, rec, this, fn["name"] == "reserve")


@method(DYN, "resize")
def m_resize(Ip, fn, rec, this, a):
    s = seq_of(Ip, this)
    n = a.val(0)
    t = elem_t(rec)
    L = length(s)
    if len(a) > 1 and classify(rec["name"])[0] == "seq" and not rec["name"].startswith("blaze"):
        fill = a.val(1)
    else:
        fill = None

    if rec["name"].startswith("blaze"):
        # new elements, and all elements unless they are to be preserved, have arbitrary values
        rest = leftover(t)
        if len(a) > 1 and a.val(1).const() == 0:
            Ip.store(this, SFUN(n, lambda i: select(rest, i)))
            return

        def grow():
            return scat([s, SFUN(n - L, lambda i: select(rest, i + L))])
    else:
        def grow():
            return scat([s, SFUN(n - L, lambda i: fill if fill is not None
                                 else Ip.default_value(t, True))])
    g = GE0(n - L)
    c = g.const()
    if c == 1:
        Ip.store(this, grow())
    elif c == 0:
        Ip.store(this, slice_(s, C0, n))
    else:
        CTX.push()
        CTX.assume(g)
        x = grow()
        CTX.pop()
        CTX.push()
        CTX.assume(NOT(g))
        y = slice_(s, C0, n)
        CTX.pop()
        Ip.store(this, ite(g, x, y))


@method(["blaze::DynamicVector"], "reset")
def m_reset(Ip, fn, rec, this, a):
    s, t = seq_of(Ip, this), elem_t(rec)
    Ip.store(this, SFUN(length(s), lambda i: Ip.default_value(t, True)))


@method(DYN, "assign")
def m_assign(Ip, fn, rec, this, a):
    if len(a) == 1:
        Ip.store(this, a.val(0))
        return
    x, y = a.val(0), a.val(1)
    if isinstance(x, Node) and x.kind == "iter":
        Ip.store(this, range_values(Ip, x, y))
    else:
        Ip.store(this, SFUN(x, lambda i: y))


@method(VARR, "fill")
def m_fill(Ip, fn, rec, this, a):
    v = a.val(0)
    s = seq_of(Ip, this)
    Ip.store(this, SFUN(length(s), lambda i: v))


@method(VEC + ["std::basic_string", "std::pair", "std::tuple", "std::function",
               "std::reference_wrapper"], "operator=")
def m_assign_op(Ip, fn, rec, this, a):
    v = a.val(0)
    if rec["name"].startswith("blaze") and isinstance(v, Poly):
        s = seq_of(Ip, this)
        v = SFUN(length(s), lambda i: a.val(0))
    Ip.store(this, v)
    return this


@method(VEC + ["std::basic_string"], "swap")
def m_swap(Ip, fn, rec, this, a):
    x, y = Ip.load(this), a.val(0)
    Ip.store(a.ref(0), x)
    Ip.store(this, y)


@method(DYN, "insert", "emplace")
def m_insert(Ip, fn, rec, this, a):
    s = seq_of(Ip, this)
    pos = a.val(0)
    if pos.kind != "iter" or pos.args[0] is not this:
        raise Unsupported("insert position")
    i = pos.args[1]
    L = length(s)
    Ip.need("range", GE0(i) * LE(i, L), "insertion position inside the container")
    if len(a) == 2 and fn["name"] == "insert":
        v = a.val(1)
        if is_seq(v) and "initializer_list" in fn["params"][1]["t"]:
            mid = v
        else:
            mid = T("sone", v)
    elif fn["name"] == "emplace":
        mid = T("sone", construct_value(Ip, elem_t(rec), a.args[1:]))
    else:
        x, y = a.val(1), a.val(2)
        if isinstance(x, Node) and x.kind == "iter":
            if x.args[0] is this:
                Ip.need("alias", EQ(x.args[1], y.args[1]),
                        "insert copies from a range of another container")
            mid = range_values(Ip, x, y)
        else:
            mid = SFUN(x, lambda q: y)
    Ip.store(this, scat([slice_(s, C0, i), mid, slice_(s, i, L)]))
    grows(Ip, rec, this)
    return T("iter", this, i, False)


@method(DYN, "erase")
def m_erase(Ip, fn, rec, this, a):
    s = seq_of(Ip, this)
    pos = a.val(0)
    i = pos.args[1]
    L = length(s)
    if len(a) == 1:
        in_range(Ip, i, s, "erase position inside the container")
        Ip.store(this, scat([slice_(s, C0, i), slice_(s, i + 1, L)])
                 if i.const() is not None else SREM(s, i))
    else:
        j = a.val(1).args[1]
        Ip.need("range", GE0(i) * LE(i, j) * LE(j, L), "erased range inside the container")
        Ip.store(this, scat([slice_(s, C0, i), slice_(s, j, L)]))
    return T("iter", this, i, False)


@method(["std::list"], "sort")
def m_lsort(Ip, fn, rec, this, a):
    do_sort(Ip, this, C0, length(seq_of(Ip, this)), a.args[0] if len(a) else None)


# -- iterators ------------------------------------------------------------------
def iter_method(Ip, fn, this, a):
    n = fn["name"]
    it = Ip.load(this)
    if n in ("operator=",):
        if isinstance(it, Node) and it.kind in ("backins", "ostrit"):
            out_write(Ip, it, a.val(0))
            return this
        Ip.store(this, a.val(0))
        return this
    if isinstance(it, Node) and it.kind in ("backins", "ostrit"):
        return this
    if n == "operator*":
        return Ip.deref(it)
    if n == "operator->":
        return Ip.deref(it)
    if n in ("operator++", "operator--"):
        nv = Ip.ptr_arith("+" if n == "operator++" else "-", it, C1)
        Ip.store(this, nv)
        if len(fn["params"]) == 1:
            return it
        return this
    if n in ("operator+", "operator-") and len(a) == 1:
        return Ip.ptr_arith(n[-1], it, a.val(0))
    if n in ("operator+=", "operator-="):
        Ip.store(this, Ip.ptr_arith(n[-2], it, a.val(0)))
        return this
    if n == "operator[]":
        return Ip.deref(Ip.ptr_arith("+", it, a.val(0)))
    if n in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
        return Ip.compare(n[8:], it, a.val(0))
    if n == "base":
        if it.args[2]:
            return T("iter", it.args[0], it.args[1], False)
        return it
    raise Unsupported("iterator method " + n)


# -- free functions ----------------------------------------------------------------
def _op_free(op):
    def f(Ip, fn, a):
        x, y = a.val(0), a.val(1) if len(a) > 1 else None
        if y is None:
            if op == "-":
                return -x
            return x
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(x, Node) and x.kind == "fnsym" or isinstance(y, Node) and \
                    y.kind == "null":
                e = C1 if (x.kind == "null") == (y.kind == "null") else C0
                return e if op == "==" else C1 - e
            if op in ("<=", ">="):
                return Ip.compare(op, x, y)
            return binop(Ip, op, x, y)
        if op == "+" and isinstance(x, Node) and isinstance(y, Node) and \
                (Ip.is_str(x) or Ip.is_str(y)):
            return strcat(x, y)
        if op == "+" and (Ip.is_str(x) if isinstance(x, Node) else False):
            return strcat(x, T("str", chr(int(y.const()))))
        if op == "+" and isinstance(x, Poly) and isinstance(y, Node) and Ip.is_str(y):
            return strcat(T("str", chr(int(x.const()))), y)
        if isinstance(x, Node) and is_seq(x) or isinstance(y, Node) and is_seq(y):
            return vec_op(op, x, y)
        if op in ("&", "|", "^"):
            if not isinstance(x, Poly) or any(
                    k in fn["ret"] for k in ("bitset", "byte", "valarray")):
                raise Unsupported("operator " + op + " of " + fn["ret"])
            # flag types
            return C0
        return Ip.arith(op, x, y, "double" if isinstance(x, Poly) and isinstance(y, Poly)
                        else fn["ret"])
    return f


for _o in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "|", "&", "^"):
    FREE["std::operator" + _o] = _op_free(_o)
    FREE["blaze::operator" + _o] = _op_free(_o)
    FREE["__gnu_cxx::operator" + _o] = _op_free(_o)
    FREE["operator" + _o] = _op_free(_o)


def vec_op(op, x, y):
    if op == "*" and isinstance(x, Poly):
        return SFUN(length(y), lambda i: x * select(y, i))
    if op == "*" and isinstance(y, Poly):
        return SFUN(length(x), lambda i: select(x, i) * y)
    if op == "/" and isinstance(y, Poly):
        return SFUN(length(x), lambda i: select(x, i) * inverse(y))
    if op in ("+", "-"):
        if op == "+":
            return SFUN(length(x), lambda i: select(x, i) + select(y, i))
        return SFUN(length(x), lambda i: select(x, i) - select(y, i))
    if op == "*":
        v = fresh_var()
        L = length(x)
        return SUM(v, L, with_range(v, L, lambda: select(x, P(v)) * select(y, P(v))))
    raise Unsupported("vector operator " + op)


@method(["blaze::DynamicVector", "blaze::StaticVector"], "operator+=", "operator-=",
        "operator*=", "operator/=")
def m_vec_compound(Ip, fn, rec, this, a):
    op = fn["name"][8]
    Ip.store(this, vec_op(op, Ip.load(this), a.val(0)))
    return this


@free_fn("std::move", "std::forward", "std::as_const", "std::ref", "std::cref",
         "std::addressof", "std::move_if_noexcept", "std::__addressof")
def f_fwd(Ip, fn, a):
    if len(a) == 3:                      # the algorithm std::move(first, last, out)
        return f_copy(Ip, fn, a)
    v, gl = a.args[0]
    if gl:
        return v
    return Ip.alloc(v)


@method("std::reference_wrapper", "get", "operator type-parameter-0-0 &")
def m_refget(Ip, fn, rec, this, a):
    return Ip.load(this)


@free_fn("std::swap", "std::iter_swap")
def f_swap(Ip, fn, a):
    if fn["name"] == "iter_swap":
        r, s = Ip.deref(a.val(0)), Ip.deref(a.val(1))
    else:
        r, s = a.ref(0), a.ref(1)
    x, y = Ip.load(r), Ip.load(s)
    Ip.store(r, y)
    Ip.store(s, x)


@free_fn("std::exchange")
def f_exchange(Ip, fn, a):
    r = a.ref(0)
    x = Ip.load(r)
    Ip.store(r, a.val(1))
    return x


@free_fn("std::back_inserter")
def f_backins(Ip, fn, a):
    return T("backins", cref(Ip, a.ref(0)), over_vector(fn["params"][0]["t"]))


@free_fn("std::begin", "std::cbegin")
def f_begin(Ip, fn, a):
    return begin_it(Ip, cref(Ip, a.ref(0)))


@free_fn("std::end", "std::cend")
def f_end(Ip, fn, a):
    return end_it(Ip, cref(Ip, a.ref(0)))


@free_fn("std::rbegin", "std::crbegin")
def f_rbegin(Ip, fn, a):
    return T("iter", cref(Ip, a.ref(0)), length(seq_of(Ip, cref(Ip, a.ref(0)))), True)


@free_fn("std::rend", "std::crend")
def f_rend(Ip, fn, a):
    return T("iter", cref(Ip, a.ref(0)), C0, True)


@free_fn("std::make_reverse_iterator")
def f_mkrev(Ip, fn, a):
    it = a.val(0)
    return T("iter", it.args[0], it.args[1], not it.args[2])


@free_fn("std::size")
def f_size(Ip, fn, a):
    return length(seq_of(Ip, a.ref(0)))


@free_fn("std::distance")
def f_distance(Ip, fn, a):
    x, y = a.val(0), a.val(1)
    return Ip.ptr_arith("-", y, x)


@free_fn("std::next", "std::prev")
def f_next(Ip, fn, a):
    n = a.val(1) if len(a) > 1 else C1
    return Ip.ptr_arith("+" if fn["name"] == "next" else "-", a.val(0), n)


@free_fn("std::advance")
def f_advance(Ip, fn, a):
    r = a.ref(0)
    Ip.store(r, Ip.ptr_arith("+", Ip.load(r), a.val(1)))


def write_range(Ip, vals, out):
    """copy a sequence of values to an output iterator"""
    n = length(vals)
    if out.kind == "backins":
        Ip.store(out.args[0], scat([seq_of(Ip, out.args[0]), vals]))
        if out.args[1]:
            Ip.grows(out.args[0])
        return out
    if out.kind == "iter" and not out.args[2]:
        ref, i, _ = out.args
        s = seq_of(Ip, ref)
        L = length(s)
        Ip.need("range", GE0(i) * LE(i + n, L), "destination range is large enough")
        Ip.store(ref, scat([slice_(s, C0, i), vals, slice_(s, i + n, L)]))
        return T("iter", ref, i + n, False)
    # element by element
    if out.kind == "ostrit":
        loop_n(Ip, n, lambda k: out_write(Ip, out, select(vals, k)))
        return out
    raise Unsupported("output to " + out.kind)


@free_fn("std::copy", "std::move_range")
def f_copy(Ip, fn, a):
    f, l, o = a.val(0), a.val(1), a.val(2)
    if o.kind == "backins" and f.kind == "iter" and f.args[0] is o.args[0]:
        Ip.need("alias", EQ(f.args[1], l.args[1]),
                "appending to a container does not read from the same container")
    vals = range_values(Ip, f, l)
    return write_range(Ip, vals, o)


@free_fn("std::copy_n")
def f_copy_n(Ip, fn, a):
    f, n, o = a.val(0), a.val(1), a.val(2)
    if o.kind == "backins" and o.args[1] and f.kind == "iter" and f.args[0] is o.args[0] \
            and f.args[0] not in Ip.reserved:
        Ip.need("alias", LE(n, C1), "elements are not read after their container has grown")
    return write_range(Ip, range_values(Ip, f, it_add(f, n)), o)


@free_fn("std::copy_backward", "std::move_backward")
def f_copy_backward(Ip, fn, a):
    f, l, o = a.val(0), a.val(1), a.val(2)
    vals = range_values(Ip, f, l)
    n = length(vals)
    st = it_add(o, -n)
    write_range(Ip, vals, st)
    return st


@free_fn("std::copy_if", "std::remove_copy_if")
def f_copy_if(Ip, fn, a):
    f, l, o, p = a.val(0), a.val(1), a.val(2), a.args[3][0]
    n = range_len(Ip, f, l)
    neg = fn["name"] == "remove_copy_if"
    cell = Ip.alloc(o)

    def body(k):
        r = Ip.deref(it_add(f, k))
        c = call_pred(Ip, p, [(r, True)])
        if neg:
            c = NOT(c)

        def put():
            Ip.store(cell, out_write(Ip, Ip.load(cell), Ip.load(r)))
        Ip.branch(c, put, lambda: None)
    loop_n(Ip, n, body)
    return Ip.load(cell)


@free_fn("std::reverse")
def f_reverse(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    vals = range_values(Ip, f, l)
    write_range(Ip, reverse(vals), f)


@free_fn("std::reverse_copy")
def f_reverse_copy(Ip, fn, a):
    f, l, o = a.val(0), a.val(1), a.val(2)
    return write_range(Ip, reverse(range_values(Ip, f, l)), o)


@free_fn("std::rotate")
def f_rotate(Ip, fn, a):
    f, m, l = a.val(0), a.val(1), a.val(2)
    x, y = range_values(Ip, f, m), range_values(Ip, m, l)
    write_range(Ip, scat([y, x]), f)
    return it_add(f, length(y))


@free_fn("std::fill")
def f_fill(Ip, fn, a):
    f, l, v = a.val(0), a.val(1), a.val(2)
    n = range_len(Ip, f, l)
    write_range(Ip, SFUN(n, lambda k: v), f)


@free_fn("std::fill_n")
def f_fill_n(Ip, fn, a):
    f, n, v = a.val(0), a.val(1), a.val(2)
    return write_range(Ip, SFUN(n, lambda k: v), f)


@free_fn("std::iota")
def f_iota(Ip, fn, a):
    f, l, v = a.val(0), a.val(1), a.val(2)
    n = range_len(Ip, f, l)
    write_range(Ip, SFUN(n, lambda k: v + k), f)


@free_fn("std::generate", "std::generate_n")
def f_generate(Ip, fn, a):
    f = a.val(0)
    g = a.args[2][0]
    n = a.val(1) if fn["name"] == "generate_n" else range_len(Ip, f, a.val(1))
    cell = Ip.alloc(f)

    def body(k):
        v = Ip.call_value(g, [], None)
        Ip.store(cell, out_write(Ip, Ip.load(cell), v))
    loop_n(Ip, n, body)
    return Ip.load(cell)


@free_fn("std::transform")
def f_transform(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    n = range_len(Ip, f, l)
    two = len(a) == 5
    f2 = a.val(2) if two else None
    o = a.val(3 if two else 2)
    g = a.args[4 if two else 3][0]
    cell = Ip.alloc(o)

    def body(k):
        args = [(Ip.deref(it_add(f, k)), True)]
        if two:
            args.append((Ip.deref(it_add(f2, k)), True))
        v = Ip.call_value(g, args, None)
        if isinstance(v, Node) and v.kind == "ref":
            v = Ip.load(v)
        Ip.store(cell, out_write(Ip, Ip.load(cell), v))
    loop_n(Ip, n, body)
    return Ip.load(cell)


@free_fn("std::for_each")
def f_for_each(Ip, fn, a):
    f, l, g = a.val(0), a.val(1), a.args[2][0]
    n = range_len(Ip, f, l)
    loop_n(Ip, n, lambda k: Ip.call_value(g, [(Ip.deref(it_add(f, k)), True)], None))
    return Ip.load(g) if isinstance(g, Node) and g.kind == "ref" else g


@free_fn("std::accumulate")
def f_accumulate(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    n = range_len(Ip, f, l)
    acc = Ip.alloc(a.val(2), fn["targs"][1] if fn.get("targs") and len(fn["targs"]) > 1 else None)
    t = Ip.ctype.get(acc.args[0], "double")

    def body(k):
        x = Ip.deref(it_add(f, k))
        if len(a) > 3:
            v = Ip.call_value(a.args[3][0], [(acc, True), (x, True)], None)
        else:
            v = user_plus(Ip, Ip.load(acc), Ip.load(x), t)
        if isinstance(v, Node) and v.kind == "ref":
            v = Ip.load(v)
        if isinstance(v, Poly):
            v = Ip.convert(v, "double", t) if classify(t)[0] == "int" and not is_int_poly(v) \
                else v
        Ip.store(acc, v)
    loop_n(Ip, n, body)
    return Ip.load(acc)


def user_plus(Ip, x, y, t):
    if isinstance(x, Poly) and isinstance(y, Poly):
        return Ip.arith("+", x, y, t)
    return binop_val(Ip, "+", x, y)


def binop_val(Ip, op, x, y):
    ta, tb = type_of(x), type_of(y)
    if ta is not None and classify(ta)[0] == "rec":
        h = find_op(Ip, op, ta, tb)
        if h:
            fid, mem = h
            if mem:
                return Ip.call_fn(fid, Ip.alloc(x, ta), [(Ip.alloc(y, tb), True)])
            return Ip.call_fn(fid, None, [(Ip.alloc(x, ta), True), (Ip.alloc(y, tb), True)])
    return _op_free(op)(Ip, {"ret": "double"}, A(Ip, [(x, False), (y, False)]))


@free_fn("std::inner_product")
def f_inner(Ip, fn, a):
    f, l, g = a.val(0), a.val(1), a.val(2)
    n = range_len(Ip, f, l)
    acc = Ip.alloc(a.val(3), strip_type(fn["ret"]))

    def body(k):
        x, y = Ip.load(Ip.deref(it_add(f, k))), Ip.load(Ip.deref(it_add(g, k)))
        if len(a) > 4:
            p = Ip.call_value(a.args[5][0], [(x, False), (y, False)], None)
            Ip.store(acc, Ip.call_value(a.args[4][0], [(acc, True), (p, False)], None))
        else:
            Ip.store(acc, Ip.load(acc) + x * y)
    loop_n(Ip, n, body)
    return Ip.load(acc)


def pure(Ip, f):
    """evaluate a callback for its value only"""
    st, g = Ip.st, Ip.guard
    Ip.st = dict(st)
    try:
        return f()
    finally:
        Ip.st, Ip.guard = st, g


def pred_range(Ip, f, l, p):
    """(n, function k -> truth of p on element k)"""
    n = range_len(Ip, f, l)

    def at(k):
        return pure(Ip, lambda: p(Ip.deref(it_add(f, k))))
    return n, at


def qrange(Ip, n, at):
    c = n.const()
    v = fresh_var()
    if c is not None and c <= 12:
        return None
    return v, with_range(v, n, lambda: at(P(v)))


def few_cases(n):
    """an indicator to split a length on that takes a few constant values"""
    ats = [x for x in n.atoms()]
    if not ats or len(ats) > 6 or not all(is_ind(x) for x in ats):
        return None
    if sum(abs(c) for c in n.t.values()) > 24:
        return None
    return max(ats, key=lambda x: (sum(1 for m in n.t if any(y is x for y, _ in m)), -x.id))


def by_cases(n, f):
    a = few_cases(n)
    if a is None:
        return None
    r = []
    for v in (1, 0):
        CTX.push()
        try:
            CTX.assume(P(a) if v else NOT(P(a)))
            m = prove_norm(prove_drop(n, a, v))
            r.append(f(m))
        finally:
            CTX.pop()
    return ite(P(a), r[0], r[1])


def prove_drop(n, a, v):
    return terms.drop_ind(n, a, v)


def prove_norm(n):
    for a, v in CTX.lits.items():
        n = terms.drop_ind(n, a, v.const() == 1)
    return n


def first_of(Ip, n, at):
    c = n.const()
    if c is None:
        r = by_cases(n, lambda m: first_of(Ip, m, at))
        if r is not None:
            return r
    if c is not None and c <= 12:
        r = n
        for i in reversed(range(int(c))):
            r = ite(at(P(i)), P(i), r)
        return r
    v = fresh_var()
    return FIRSTP(v, n, with_range(v, n, lambda: at(P(v))))


def FIRSTP(v, n, c):
    r = FIRST(v, n, c)
    return P(r) if isinstance(r, Node) else r


def any_of(Ip, n, at):
    c = n.const()
    if c is None:
        r = by_cases(n, lambda m: any_of(Ip, m, at))
        if r is not None:
            return r
    if c is not None and c <= 12:
        r = C0
        for i in range(int(c)):
            r = OR(r, at(P(i)))
        return r
    v = fresh_var()
    return ANY(v, n, with_range(v, n, lambda: at(P(v))))


@free_fn("std::find", "std::find_if", "std::find_if_not")
def f_find(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    if fn["name"] == "find":
        x = a.val(2)

        def p(r):
            return binop(Ip, "==", Ip.load(r), x)
    else:
        neg = fn["name"] == "find_if_not"

        def p(r):
            c = call_pred(Ip, a.args[2][0], [(r, True)])
            return NOT(c) if neg else c
    n, at = pred_range(Ip, f, l, p)
    k = first_of(Ip, n, at)
    return it_add(f, k)


@free_fn("std::any_of", "std::all_of", "std::none_of")
def f_any(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    nm = fn["name"]

    def p(r):
        c = call_pred(Ip, a.args[2][0], [(r, True)])
        return NOT(c) if nm == "all_of" else c
    n, at = pred_range(Ip, f, l, p)
    e = any_of(Ip, n, at)
    return e if nm == "any_of" else NOT(e)


@free_fn("std::count", "std::count_if")
def f_count(Ip, fn, a):
    f, l = a.val(0), a.val(1)

    def p(r):
        if fn["name"] == "count":
            return binop(Ip, "==", Ip.load(r), a.val(2))
        return call_pred(Ip, a.args[2][0], [(r, True)])
    n, at = pred_range(Ip, f, l, p)
    c = n.const()
    if c is not None and c <= 12:
        r = C0
        for i in range(int(c)):
            r = r + at(P(i))
        return r
    v = fresh_var()
    return SUM(v, n, with_range(v, n, lambda: at(P(v))))


@free_fn("std::equal")
def f_equal(Ip, fn, a):
    f, l, g = a.val(0), a.val(1), a.val(2)
    n = range_len(Ip, f, l)
    rest = a.args[3:]
    e = C1
    if rest and isinstance(rest[0][0], Node) and not rest[0][1] and rest[0][0].kind == "iter":
        n2 = range_len(Ip, g, rest[0][0])
        e = EQ(n, n2)
        rest = rest[1:]
        if e.const() == 0:
            return C0
    CTX.push()
    CTX.assume(e)
    try:
        def at(k):
            def go():
                x, y = Ip.deref(it_add(f, k)), Ip.deref(it_add(g, k))
                if rest:
                    return NOT(call_pred(Ip, rest[0][0], [(x, True), (y, True)]))
                return NOT(binop(Ip, "==", Ip.load(x), Ip.load(y)))
            return pure(Ip, go)
        r = NOT(any_of(Ip, n, at))
    finally:
        CTX.pop()
    return e * r


def two_ranges(Ip, a):
    """f, l, g, number of common positions, sizes, rest of the arguments"""
    f, l, g = a.val(0), a.val(1), a.val(2)
    n = range_len(Ip, f, l)
    rest = a.args[3:]
    n2 = None
    if rest and isinstance(rest[0][0], Node) and not rest[0][1] and rest[0][0].kind == "iter":
        n2 = range_len(Ip, g, rest[0][0])
        rest = rest[1:]
    return f, g, n, n2, rest


@free_fn("std::mismatch")
def f_mismatch(Ip, fn, a):
    f, g, n, n2, rest = two_ranges(Ip, a)
    m = n if n2 is None else ite(LT(n2, n), n2, n)

    def at(k):
        def go():
            x, y = Ip.deref(it_add(f, k)), Ip.deref(it_add(g, k))
            if rest:
                return NOT(call_pred(Ip, rest[0][0], [(x, True), (y, True)]))
            return NOT(binop(Ip, "==", Ip.load(x), Ip.load(y)))
        return pure(Ip, go)
    k = first_of(Ip, m, at)
    return mk_rec(strip_type(fn["ret"]), [("first", it_add(f, k)), ("second", it_add(g, k))])


@free_fn("std::lexicographical_compare")
def f_lexcmp(Ip, fn, a):
    f, g, n, n2, rest = two_ranges(Ip, a)
    m = ite(LT(n2, n), n2, n)

    def less(x, y):
        if rest:
            return call_pred(Ip, rest[0][0], [(x, True), (y, True)])
        return binop(Ip, "<", Ip.load(x), Ip.load(y))

    def at(k):
        def go():
            x, y = Ip.deref(it_add(f, k)), Ip.deref(it_add(g, k))
            return OR(less(x, y), less(y, x))
        return pure(Ip, go)
    k = first_of(Ip, m, at)
    inside = LT(k, m)
    CTX.push()
    CTX.assume(inside)
    try:
        first = pure(Ip, lambda: less(Ip.deref(it_add(f, k)), Ip.deref(it_add(g, k)))) \
            if inside.const() != 0 else C0
    finally:
        CTX.pop()
    return ite(inside, first, LT(n, n2))


@free_fn("std::adjacent_find")
def f_adjacent(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    n = range_len(Ip, f, l)
    comp = a.args[2][0] if len(a) > 2 else None

    def at(k):
        def go():
            x, y = Ip.deref(it_add(f, k)), Ip.deref(it_add(f, k + C1))
            if comp is not None:
                return call_pred(Ip, comp, [(x, True), (y, True)])
            return binop(Ip, "==", Ip.load(x), Ip.load(y))
        return pure(Ip, go)
    m = ite(EQ(n, C0), C0, n - C1)
    k = first_of(Ip, m, at)
    return it_add(f, ite(LT(k, m), k, n))


@free_fn("std::is_sorted")
def f_is_sorted(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    n = range_len(Ip, f, l)
    comp = a.args[2][0] if len(a) > 2 else None

    def at(k):
        def go():
            x, y = Ip.deref(it_add(f, k)), Ip.deref(it_add(f, k + C1))
            if comp is not None:
                return call_pred(Ip, comp, [(y, True), (x, True)])
            return binop(Ip, "<", Ip.load(y), Ip.load(x))
        return pure(Ip, go)
    return NOT(any_of(Ip, ite(EQ(n, C0), C0, n - C1), at))


def do_sort(Ip, ref, lo, hi, comp):
    s = seq_of(Ip, ref)
    L = length(s)
    sub = slice_(s, lo, hi)

    def less(x, y):
        def go():
            if comp is not None:
                return call_pred(Ip, comp[0], [(Ip.alloc(x), True), (Ip.alloc(y), True)])
            return binop(Ip, "<", x, y)
        return pure(Ip, go)
    if not Ip.quiet:
        check_order(Ip, sub, less)
    srt = SSORT(sub, less)
    Ip.store(ref, scat([slice_(s, C0, lo), srt, slice_(s, hi, L)]))


def check_order(Ip, s, less):
    """the comparison handed to a sort is a strict weak order"""
    et = elem_type(s)
    if et is None:
        return
    xs = [mk_symval(et, ("var", "sort_" + n)) for n in "abc"]
    a, b, c = xs
    Ip.quiet += 1
    try:
        irr = less(a, a)
        ab, ba, bc, ac, cb, ca = less(a, b), less(b, a), less(b, c), less(a, c), less(c, b), \
            less(c, a)
    finally:
        Ip.quiet -= 1
    Ip.need("order", NOT(irr), "the sorting criterion never puts an element before itself")
    Ip.need("order", NOT(ab * ba), "the sorting criterion is asymmetric")
    Ip.need("order", NOT(ab * bc * NOT(ac)), "the sorting criterion is transitive")
    e = NOT(ab) * NOT(ba) * NOT(bc) * NOT(cb)
    Ip.need("order", NOT(e * OR(ac, ca)), "ties of the sorting criterion are transitive")


@free_fn("std::sort", "std::stable_sort")
def f_sort(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    Ip.same_container(f, l)
    do_sort(Ip, f.args[0], f.args[1], l.args[1], a.args[2] if len(a) > 2 else None)


@free_fn("std::lower_bound", "std::upper_bound", "std::binary_search")
def f_lower(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    x = a.val(2)
    comp = a.args[3] if len(a) > 3 else None
    up = fn["name"] == "upper_bound"

    def p(r):
        def go():
            y = Ip.load(r)
            if up:
                c = call_pred(Ip, comp[0], [(Ip.alloc(x), True), (r, True)]) if comp else \
                    binop(Ip, "<", x, y)
                return c
            c = call_pred(Ip, comp[0], [(r, True), (Ip.alloc(x), True)]) if comp else \
                binop(Ip, "<", y, x)
            return NOT(c)
        return pure(Ip, go)
    n, at = pred_range(Ip, f, l, p)
    return it_add(f, first_of(Ip, n, at))


@free_fn("std::remove_if", "std::remove")
def f_remove_if(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    ref = f.args[0]
    vals = range_values(Ip, f, l)
    out = Ip.alloc(EMPTY)

    def body(k):
        x = select(vals, k)
        if fn["name"] == "remove":
            c = binop(Ip, "==", x, a.val(2))
        else:
            c = call_pred(Ip, a.args[2][0], [(Ip.alloc(x), True)])
        Ip.branch(NOT(c), lambda: push(Ip, out, x), lambda: None)
    loop_n(Ip, length(vals), body)
    kept = Ip.load(out)
    s = seq_of(Ip, ref)
    L = length(s)
    nk = length(kept)
    garbage = leftover(elem_type(s) or "double")
    rest = SFUN(length(vals) - nk, lambda i: select(garbage, i))
    Ip.store(ref, scat([slice_(s, C0, f.args[1]), kept, rest, slice_(s, l.args[1], L)]))
    return T("iter", ref, f.args[1] + nk, False)


@free_fn("std::min", "std::max")
def f_minmax(Ip, fn, a):
    if "initializer_list" in fn["params"][0]["t"]:
        xs = a.val(0)
        n = length(xs).const()
        if n is None:
            raise Unsupported("smallest of an unbounded list")
        n = int(n)
        best = select(xs, C0)
        for i in range(1, n):
            v = select(xs, P(i))
            c = less_than(Ip, a, 1, *((v, best) if fn["name"] == "min" else (best, v)))
            best = ite(c, v, best)
        return best
    x, y = a.val(0), a.val(1)
    c = less_than(Ip, a, 2, *((y, x) if fn["name"] == "min" else (x, y)))
    return Ip.alloc(ite(c, y, x))


def less_than(Ip, a, i, x, y):
    """x before y, under the comparison given as argument i if there is one"""
    if len(a) > i:
        return call_pred(Ip, a.args[i][0], [(Ip.alloc(x), True), (Ip.alloc(y), True)])
    return binop(Ip, "<", x, y)


@free_fn("std::minmax")
def f_minmax2(Ip, fn, a):
    if "initializer_list" in fn["params"][0]["t"]:
        raise Unsupported("std::minmax of a list")
    x, y = a.val(0), a.val(1)
    c = less_than(Ip, a, 2, y, x)
    return mk_rec(strip_type(fn["ret"]), [("first", ite(c, y, x)), ("second", ite(c, x, y))])


@free_fn("std::min_element", "std::max_element")
def f_min_element(Ip, fn, a):
    f, l = a.val(0), a.val(1)
    n = range_len(Ip, f, l)
    best = Ip.alloc(C0, "long")
    comp = a.args[2][0] if len(a) > 2 else None
    mx = fn["name"] == "max_element"

    def body(k):
        x = Ip.deref(it_add(f, k))
        y = Ip.deref(it_add(f, Ip.load(best)))
        if mx:
            x, y = y, x
        if comp is not None:
            c = call_pred(Ip, comp, [(x, True), (y, True)])
        else:
            c = binop(Ip, "<", Ip.load(x), Ip.load(y))
        Ip.branch(c, lambda: Ip.store(best, k), lambda: None)
    loop_n(Ip, n, body)
    return it_add(f, Ip.load(best))


# -- tuples, pairs -----------------------------------------------------------------
@free_fn("std::get")
def f_get(Ip, fn, a):
    i = fn["targs"][0]
    r = a.ref(0)
    v = Ip.load(r)
    if is_seq(v):
        return refext(r, ("i", P(int(i))))
    if type_of(v) and classify(type_of(v))[0] == "pair":
        i = "first" if i == "0" else "second"
    return refext(r, ("f", i))


@free_fn("std::make_tuple", "std::forward_as_tuple", "std::tie")
def f_make_tuple(Ip, fn, a):
    t = strip_type(fn["ret"])
    if fn["name"] == "make_tuple":
        return mk_rec(t, [(str(i), a.val(i)) for i in range(len(a))])
    return mk_rec(t, [(str(i), a.val(i)) for i in range(len(a))])


@free_fn("std::make_pair")
def f_make_pair(Ip, fn, a):
    return mk_rec(strip_type(fn["ret"]), [("first", a.val(0)), ("second", a.val(1))])


@free_fn("std::make_shared", "std::make_unique")
def f_make_shared(Ip, fn, a):
    t = fn["targs"][0]
    return Ip.alloc(construct_value(Ip, t, a.args), t)


@method(["std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::unique_ptr"],
        "operator*", "operator->", "get")
def m_sp(Ip, fn, rec, this, a):
    return Ip.load(this)


# -- numbers ---------------------------------------------------------------------
def lead_negative(p):
    if not p.t:
        return False
    l = min(p.t, key=mono_key)
    return p.t[l] < 0


def fun1(name, even=None, odd_=None):
    def f(Ip, fn, a):
        return apply1(name, a.val(0), fn["ret"])
    return f


PI = T("leaf", ("var", "pi"), (), "real")
NONNEG.add(PI)
terms.BOUNDS[PI] = (P(Fraction(314159, 100000)), P(Fraction(314160, 100000)))


def apply1(name, x, t="double"):
    if any(q.kind == "I" for q in x.atoms()):
        r, i = re_im(x)
        if name == "exp":
            return apply1("exp", r) * (apply1("cos", i) + P(I) * apply1("sin", i))
        if name == "abs":
            return apply1("sqrt", r * r + i * i)
        raise Unsupported(name + " of a complex number")
    if first_ind(x) is not None:
        return cases(x, lambda q: apply1(name, q, t))
    c = x.const()
    if name in ("cos", "sin"):
        if c == 0:
            return C1 if name == "cos" else C0
        # multiples of pi
        q = x * P(PI) if False else None
        m = {k: v for k, v in x.t.items()}
        if len(m) == 1:
            (mm, co), = m.items()
            if mm == ((PI, 1),):
                h = co * 2
                if h.denominator == 1:
                    h = int(h) % 4
                    if name == "cos":
                        return P([1, 0, -1, 0][h])
                    return P([0, 1, 0, -1][h])
        # whole periods vanish
        per = Poly({k: v for k, v in x.t.items() if is_period(k, v)})
        if per.t:
            return apply1(name, x - per, t)
        if lead_negative(x):
            r = apply1(name, -x, t)
            return r if name == "cos" else -r
    elif name == "tan":
        if c == 0:
            return C0
        if lead_negative(x):
            return -apply1(name, -x, t)
    elif name in ("abs", "fabs"):
        if prove_nonneg(x):
            return x
        if prove_nonneg(-x):
            return -x
        g = GE0(x)
        return ite(g, x, -x)
    elif name == "sqrt":
        if c is not None and c >= 0:
            import math
            n, d = c.numerator, c.denominator
            if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return P(Fraction(math.isqrt(n), math.isqrt(d)))
    elif name == "exp":
        if c == 0:
            return C1
    elif name == "log":
        if c == 1:
            return C0
    elif name == "round":
        return ROUND(x)
    elif name == "trunc":
        return TRUNC(x)
    elif name == "floor":
        return FLOOR(x)
    elif name == "ceil":
        return -FLOOR(-x)
    elif name in ("isnan", "isinf"):
        return C0
    elif name == "isfinite":
        return C1
    return mk_app(name, [x], t)


values.APPLY[0] = apply1


def is_period(m, c):
    """c*m is an integer multiple of 2*pi"""
    h = dv(c, 2)
    if h.denominator != 1:
        return False
    rest = tuple(x for x in m if x[0] is not PI)
    if len(rest) != len(m) - 1 or (PI, 1) not in m:
        return False
    return all(e > 0 and sort_of(x) in ("int", "ind") for x, e in rest)


for _n in ("cos", "sin", "tan", "exp", "log", "sqrt", "acos", "asin", "atan", "sinh", "cosh",
           "tanh", "floor", "ceil", "isnan", "isfinite", "isinf", "log2", "log10", "cbrt"):
    FREE["std::" + _n] = fun1(_n)
    FREE[_n] = fun1(_n)


@free_fn("std::abs", "std::fabs", "abs", "fabs")
def f_abs(Ip, fn, a):
    return apply1("abs", a.val(0), fn["ret"])


@free_fn("std::round", "round", "std::lround", "std::llround", "lround", "llround")
def f_round(Ip, fn, a):
    return ROUND(a.val(0))


@free_fn("std::trunc", "trunc")
def f_trunc(Ip, fn, a):
    return TRUNC(a.val(0))


@free_fn("std::pow", "pow")
def f_pow(Ip, fn, a):
    x, y = a.val(0), a.val(1)
    c = y.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 8:
        return power(x, int(c)) if c else C1
    if c == Fraction(1, 2):
        return apply1("sqrt", x)
    cx = x.const()
    if cx == -1 and is_int_poly(y):
        o = odd(y)
        if o is not None:
            return C1 - o.scale(2)
    return mk_app("pow", [x, y], "double")


@free_fn("std::fmod", "fmod")
def f_fmod(Ip, fn, a):
    x, y = a.val(0), a.val(1)
    # x - y*trunc(x/y)
    return x - y * TRUNC(x * inverse(y))


@free_fn("std::atan2", "atan2", "std::hypot", "hypot")
def f_two(Ip, fn, a):
    return mk_app(fn["name"], [a.val(0), a.val(1)], "double")


@free_fn("std::conj")
def f_conj(Ip, fn, a):
    return conj(a.val(0))


@free_fn("std::real")
def f_real(Ip, fn, a):
    return re_im(a.val(0))[0]


@free_fn("std::imag")
def f_imag(Ip, fn, a):
    return re_im(a.val(0))[1]


@free_fn("std::norm")
def f_norm(Ip, fn, a):
    r, i = re_im(a.val(0))
    return r * r + i * i


@free_fn("std::polar")
def f_polar(Ip, fn, a):
    r = a.val(0)
    th = a.val(1) if len(a) > 1 else C0
    return r * (apply1("cos", th) + P(I) * apply1("sin", th))


@method("std::complex", "real", "imag")
def m_complex(Ip, fn, rec, this, a):
    r, i = re_im(Ip.load(this))
    if len(a) == 1:
        if fn["name"] == "real":
            Ip.store(this, a.val(0) + P(I) * i)
        else:
            Ip.store(this, r + P(I) * a.val(0))
        return None
    return r if fn["name"] == "real" else i


@method("std::complex", "__rep")
def m_crep(Ip, fn, rec, this, a):
    return Ip.load(this)


@method("std::complex", "operator=", "operator+=", "operator-=", "operator*=", "operator/=")
def m_cassign(Ip, fn, rec, this, a):
    op = fn["name"][8:]
    v = a.val(0)
    if op != "=":
        v = Ip.arith(op[0], Ip.load(this), v, "double")
    Ip.store(this, v)
    return this


FREE["std::literals::complex_literals::operator\"\"i"] = lambda Ip, fn, a: P(I) * a.val(0)
FREE["std::literals::complex_literals::operator\"\"if"] = lambda Ip, fn, a: P(I) * a.val(0)


def without_extension(v):
    """a path that ends in a known extension, without it (None: not known)"""
    last = v.args[0][-1] if v.kind == "strcat" else v
    if last.kind != "str":
        return None
    s = last.args[0]
    j = s.rfind(".")
    if j < 0 or "/" in s[j:]:
        return None
    r = T("str", s[:j])
    for x in reversed(v.args[0][:-1] if v.kind == "strcat" else ()):
        r = strcat(x, r)
    return r


@free_fn("std::to_string")
def f_to_string(Ip, fn, a):
    v = a.val(0)
    c = v.const()
    if fn["params"] and classify(fn["params"][0]["t"])[0] == "real":
        # always six digits
        return T("leaf", ("app", "fixed_text", (v,)), (), "str")
    if c is not None and c.denominator == 1:
        return T("str", str(int(c)))
    return T("leaf", ("app", "to_string", (v,)), (), "str")


# -- strings ----------------------------------------------------------------------
@method("std::basic_string", "operator+=", "append", "push_back")
def s_append(Ip, fn, rec, this, a):
    v = a.val(0)
    if isinstance(v, Poly):
        v = T("str", chr(int(v.const())))
    Ip.store(this, strcat(Ip.load(this), v))
    return this


@method("std::basic_string", "c_str", "data", "str")
def s_cstr(Ip, fn, rec, this, a):
    return Ip.load(this)


@method("std::basic_string", "size", "length")
def s_size(Ip, fn, rec, this, a):
    v = Ip.load(this)
    if v.kind == "str":
        return P(len(v.args[0].encode()))
    return mk_app("strlen", [v], "unsigned long")


@method("std::basic_string", "empty")
def s_empty(Ip, fn, rec, this, a):
    v = Ip.load(this)
    if v.kind != "strcat":
        return str_eq(v, T("str", ""))
    e = C1
    for p in v.args[0]:
        e = e * str_eq(p, T("str", ""))
    return e


@method("std::basic_string", "operator[]", "at", "front", "back")
def s_char(Ip, fn, rec, this, a):
    v = Ip.load(this)
    if not (isinstance(v, Node) and v.kind == "str" and v.args[0].isascii()):
        raise Unsupported("characters of a text")
    n = fn["name"].split("::")[-1]
    i = 0 if n == "front" else len(v.args[0]) - 1 if n == "back" else a.val(0).const()
    if i is None or i.denominator != 1 if not isinstance(i, int) else False:
        raise Unsupported("characters of a text")
    i = int(i)
    if not 0 <= i < len(v.args[0]):
        raise Unsupported("characters of a text")
    return P(ord(v.args[0][i]))


@method("std::basic_string", "compare")
def s_compare(Ip, fn, rec, this, a):
    x, y = Ip.load(this), a.val(0)
    return str_lt(y, x) - str_lt(x, y)


@method("std::basic_string", "clear")
def s_clear(Ip, fn, rec, this, a):
    Ip.store(this, T("str", ""))


# -- functions ---------------------------------------------------------------------
@method("std::function", "operator bool")
def fn_bool(Ip, fn, rec, this, a):
    v = Ip.load(this)
    return C0 if v.kind == "null" else C1


@method("std::function", "operator()")
def fn_call(Ip, fn, rec, this, a):
    return Ip.call_value(Ip.load(this), a.args, fn["ret"])


for _fo, _op in (("plus", "+"), ("minus", "-"), ("multiplies", "*"), ("divides", "/"),
                 ("equal_to", "=="), ("not_equal_to", "!="), ("less", "<"), ("greater", ">"),
                 ("less_equal", "<="), ("greater_equal", ">=")):
    def _mk(op):
        def g(Ip, fn, rec, this, a):
            x, y = a.val(0), a.val(1)
            if op in ("+", "-", "*", "/"):
                if isinstance(x, Poly) and isinstance(y, Poly):
                    return Ip.arith(op, x, y, fn["ret"])
                return binop_val(Ip, op, x, y)
            if op in ("<=", ">="):
                return Ip.compare(op, x, y)
            return binop(Ip, op, x, y)
        return g
    METHODS[("std::" + _fo, "operator()")] = _mk(_op)


@method(["std::logical_not", "std::negate"], "operator()")
def fo_neg(Ip, fn, rec, this, a):
    v = a.val(0)
    return NOT(v) if "logical" in rec["name"] else -v


def call_stdfn(Ip, c, args):
    raise Unsupported("std function object")


# -- constants ----------------------------------------------------------------------
def global_value(Ip, g):
    q = g["qual"]
    if q in ("std::cout", "std::cerr", "std::clog"):
        return EMPTYSTREAM
    return None


@free_fn("boost::math::constants::pi")
def f_pi(Ip, fn, a):
    return P(PI)


@free_fn("boost::math::constants::half_pi")
def f_hpi(Ip, fn, a):
    return P(PI).scale(Fraction(1, 2))


@free_fn("boost::math::constants::two_pi")
def f_2pi(Ip, fn, a):
    return P(PI).scale(2)


LIMITS = {
    ("double", "epsilon"): Fraction(1, 2 ** 52), ("float", "epsilon"): Fraction(1, 2 ** 23),
}


def f_limits(Ip, fn, a):
    rec = Ip.record_of(fn)
    t = rec["targs"][0]
    n = fn["name"]
    if (t, n) in LIMITS:
        return P(LIMITS[(t, n)])
    if n == "max" and t in ("unsigned long",):
        return P(2 ** 64 - 1)
    if n == "max" and t in ("int",):
        return P(2 ** 31 - 1)
    if n == "epsilon" and t in INT_TYPES:
        return C0
    return mk_app("limits_%s_%s" % (t, n), [], t)


for _n in ("epsilon", "max", "min", "lowest", "infinity", "quiet_NaN", "denorm_min"):
    FREE["std::numeric_limits::" + _n] = f_limits


# -- streams -------------------------------------------------------------------------
for _n in ("setprecision", "setw", "setfill", "setiosflags", "resetiosflags", "setbase"):
    FREE["std::" + _n] = lambda Ip, fn, a: T("undef")


@method(["std::basic_ostream"], "operator<<")
def os_method(Ip, fn, rec, this, a):
    t = fn["params"][0]["t"]
    if "(*)" in t or "(&)" in t:
        f = a.val(0)          # manipulator
        if isinstance(f, Node) and f.kind == "fnref":
            g = Ip.fns[f.args[0]]
            if g["user"] and g.get("body") is not None:
                return Ip.inline(g, None, [this])
            if g["name"] == "endl":
                stream_put(Ip, this, T("str", "\n"), "const char *")
            elif g["name"] == "ends":
                raise Unsupported("text with a null character")
        return this
    stream_put(Ip, this, a.val(0), t)
    return this


@free_fn("std::operator<<")
def os_free(Ip, fn, a):
    p = fn["params"][1]["t"]
    v = a.val(1)
    if not is_stream_type(fn["params"][0]["t"]) and "ostream" not in fn["params"][0]["t"]:
        raise Unsupported("operator<<")
    if "_Set" in p:
        return a.ref(0)
    stream_put(Ip, a.ref(0), v, p)
    return a.ref(0)


def stream_method(Ip, fn, this, a):
    n = fn["name"]
    if n == "str" and not len(a):
        o = rec_get(Ip.load(this), "out")
        return stream_str(Ip, o)
    if n in ("str",):
        Ip.store(this, EMPTYSTREAM)
        return None
    if n in ("precision", "setf", "unsetf", "flush", "width", "fill", "close", "open"):
        return this if n == "flush" else C0
    if n == "put":
        stream_put(Ip, this, a.val(0), "char")
        return this
    if n == "write":
        raise Unsupported("unformatted output")
    if n in ("operator bool", "good", "is_open"):
        return P(T("leaf", ("var", "stream_good"), (), "ind"))
    if n in ("fail", "bad", "operator!"):
        return C1 - P(T("leaf", ("var", "stream_good"), (), "ind"))
    if n == "operator<<":
        return os_method(Ip, fn, None, this, a)
    if n in ("rdbuf", "rdstate", "clear"):
        return C0
    raise Unsupported("stream method " + n)


def item_str(v):
    if v.kind == "otxt":
        return T("str", v.args[0])
    if v.kind == "onum":
        c = v.args[0].const()
        if v.args[1] == "int" and c is not None and c.denominator == 1:
            return T("str", str(int(c)))
        return T("leaf", ("app", TEXTS[v.args[1]], (v.args[0],)), (), "str")
    if v.kind == "vite":
        x, y = item_str(v.args[1]), item_str(v.args[2])
        return None if x is None or y is None else ite(v.args[0], x, y)
    if v.kind in ("str", "strcat", "leaf"):
        return v
    return None


def stream_str(Ip, o):
    r = T("str", "")
    for p in parts(o) if o is not EMPTY else []:
        if p.kind == "sif":
            x = ite(p.args[0], stream_str(Ip, p.args[1]), stream_str(Ip, p.args[2]))
        else:
            x = item_str(p.args[0]) if p.kind == "sone" else None
        if x is None:
            return T("leaf", ("app", "text", (o,)), (), "str")
        r = strcat(r, x)
    return r


def _rb_strcat(xs):
    r = T("str", "")
    for x in xs:
        r = strcat(r, x)
    return r


terms._rebuild["strcat"] = _rb_strcat
values.TEXT[0] = lambda s: stream_str(None, s)



# -- OpenMP -----------------------------------------------------------------------
@free_fn('std::operator""i', 'std::operator""if', 'std::operator""il', 'operator""i',
         'std::complex_literals::operator""i', 'std::literals::complex_literals::operator""i')
def f_imaginary(Ip, fn, a):
    return a.val(0) * P(I)


@free_fn("omp_get_thread_num")
def f_tid(Ip, fn, a):
    if Ip.race is not None:
        return P(Ip.race.tid)
    if Ip.tid is not None:
        return Ip.tid
    return P(THREAD) if Ip.ompdepth else C0


@free_fn("omp_get_max_threads", "omp_get_num_threads")
def f_nthreads(Ip, fn, a):
    # outside of a parallel region the team is a single thread
    return P(THREADS) if Ip.ompdepth or fn["name"] == "omp_get_max_threads" else C1


THREAD = T("leaf", ("var", "thread"), (), "int")
THREADS = T("leaf", ("var", "threads"), (), "int")
terms.BOUNDS[THREADS] = (C1, None)
terms.BOUNDS[THREAD] = (C0, P(THREADS) - C1)
NONNEG.update((THREAD, THREADS))


# -- obligations --------------------------------------------------------------------
def vf_call(Ip, fn, args):
    a = A(Ip, args)
    n = fn["name"]
    if n == "assume":
        c = a.val(0)
        CTX.assume(c)
        return None
    if n == "claim":
        w = a.val(1)
        Ip.oblige("claim", a.val(0), w.args[0])
        return None
    if n == "same":
        w = a.val(2)
        Ip.oblige("same", None, w.args[0], a=a.val(0), b=a.val(1))
        return None
    if n == "any" or n == "any_seq":
        w = a.val(0)
        return mk_symval(fn["ret"], ("var", w.args[0]))
    if n == "text":
        # everything written to a stream
        return rec_get(Ip.load(stream_ref(Ip, a.ref(0))), "out")
    if n == "forget":
        return None
    raise Unsupported("vf::" + n)
