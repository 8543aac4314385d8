"""Structured values of the abstract domain: records, sequences, references.

Sequences are kept in a normal form built from whole symbolic sequences,
single elements, comprehension (`sfun`), flattened repetition (`sfor`),
concatenation and gates, plus functional updates.
"""
from terms import *
import terms

SEQ_KINDS = {"ssym", "sone", "sfun", "sfor", "scat", "sif", "supd", "smap", "sacc", "ssort",
             "srem", "sfold", "sunk"}


class Unsupported(Exception):
    pass


def is_seq(v):
    return isinstance(v, Node) and v.kind in SEQ_KINDS


EMPTY = T("scat", ())


# --------------------------------------------------------------------------
# types


class Types:
    """type descriptions of the translation unit under analysis"""

    def __init__(self):
        self.records = {}
        self.by_name = {}

    def load(self, records):
        self.records = {int(k): v for k, v in records.items()}
        self.by_name = {}
        for i, r in self.records.items():
            self.by_name[r["name"]] = i


TY = Types()

INT_TYPES = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char",
             "signed char", "unsigned char", "long long", "unsigned long long", "wchar_t",
             "char32_t", "char16_t"}
UNSIGNED = {"unsigned int": 32, "unsigned long": 64, "unsigned short": 16, "unsigned char": 8,
            "unsigned long long": 64}
FLOAT_TYPES = {"double", "float", "long double"}


def strip_type(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):].strip()
                ch = True
        for s in ("&&", "&", " const"):
            if t.endswith(s):
                t = t[:-len(s)].strip()
                ch = True
    return t


def split_targs(t):
    """template arguments of a canonical type string"""
    i = t.find("<")
    if i < 0:
        return t, []
    depth = 0
    args, cur = [], ""
    for ch in t[i + 1:]:
        if ch in "<(":
            depth += 1
        if ch in ">)":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        args.append(cur.strip())
    return t[:i], args


STRING_T = "std::basic_string<char>"


def classify(t):
    """-> (kind, data) of a type string"""
    t = strip_type(t)
    if t == "bool":
        return ("ind", None)
    if t in INT_TYPES:
        return ("int", t)
    if t in FLOAT_TYPES:
        return ("real", None)
    if t.endswith("*"):
        return ("ptr", t[:-1].strip())
    if "[" in t and t.endswith("]") and "(" not in t:
        j = t.index("[", t.rindex(">") + 1 if ">" in t else 0)
        m = t.index("]", j)
        try:
            return ("arr", (t[:j].strip() + t[m + 1:], int(t[j + 1:m])))
        except ValueError:
            pass
    base, args = split_targs(t)
    base = base.replace("std::__cxx11::", "std::")
    if base == "std::complex":
        return ("complex", args[0])
    if base == "std::basic_string":
        return ("str", None)
    if base in ("std::vector", "std::list", "std::deque", "std::initializer_list"):
        i = TY.by_name.get(t)
        if i is not None and TY.records[i].get("user"):
            return ("rec", i)       # a specialisation of the driver
        return ("seq", args[0])
    if base == "std::_Vector_base":
        return ("skip", None)
    if base == "std::array":
        return ("arr", (args[0], int(args[1].rstrip("UuLl"))))
    if base in ("blaze::DynamicVector", "blaze::CompressedVector"):
        return ("seq", args[0])
    if base == "std::tuple":
        return ("tuple", args)
    if base == "std::pair":
        return ("pair", args)
    if base == "std::function":
        return ("fn", args[0])
    if base == "std::reference_wrapper":
        return ("refw", args[0])
    if t == "vf::LinVec":
        return ("vec", None)
    if t in TY.by_name:
        return ("rec", TY.by_name[t])
    return ("obj", t)


def leaf(base, path, sort):
    n = T("leaf", base, path, sort)
    return n


def as_num(n, sort):
    return P(n) if sort in ("ind", "int", "real", "vec") else n


def num_leaf(base, path, sort, unsigned=False):
    n = T("leaf", base, path, sort)
    if unsigned:
        NONNEG.add(n)
    return P(n)


CELL_HOOK = [None]     # allocates a cell for symbolic references


def mk_symval(t, base, path=()):
    """an arbitrary value of type t identified by (base, path)"""
    k, d = classify(t)
    if k == "ind":
        return num_leaf(base, path, "ind")
    if k == "int":
        return num_leaf(base, path, "int", d in UNSIGNED)
    if k == "real":
        return num_leaf(base, path, "real")
    if k == "vec":
        return num_leaf(base, path, "vec")
    if k == "complex":
        return num_leaf(base, path + ("re",), "real") + P(I) * num_leaf(base, path + ("im",),
                                                                       "real")
    if k == "str":
        return leaf(base, path, "str")
    if k == "seq":
        return T("ssym", base, path, strip_type(d))
    if k == "arr":
        et, n = d
        if n <= 16:
            return scat([T("sone", mk_symval(et, base, path + (str(i),))) for i in range(n)])
        return T("ssym", base, path, et)
    if k == "tuple":
        return mk_rec(strip_type(t), [(str(i), mk_symval(a, base, path + (str(i),)))
                                      for i, a in enumerate(d)])
    if k == "pair":
        return mk_rec(strip_type(t), [("first", mk_symval(d[0], base, path + ("first",))),
                                      ("second", mk_symval(d[1], base, path + ("second",)))])
    if k == "fn":
        return T("fnsym", base, path, strip_type(d))
    if k in ("refw", "ptr"):
        return CELL_HOOK[0](d, base, path)
    if k == "rec":
        return sym_rec(d, base, path)
    return leaf(base, path, "obj")


def sym_rec(rid, base, path):
    r = TY.records[rid]
    fs = []
    if not r["user"] and not r.get("fields"):
        return leaf(base, path, "obj")
    for b in r.get("bases", []):
        bt = b["t"]
        k, _ = classify(bt)
        if k == "skip":
            continue
        fs.append(("__base:" + strip_type(bt), mk_symval(bt, base, path + ("base",))))
    for f in r.get("fields", []):
        ft = f["t"]
        if ft.endswith("&"):
            fs.append((f["n"], CELL_HOOK[0](strip_type(ft), base, path + (f["n"],))))
        else:
            fs.append((f["n"], mk_symval(ft, base, path + (f["n"],))))
    if not fs:
        return leaf(base, path, "obj")
    return mk_rec(r["name"], fs)


def mk_rec(ty, fs):
    return T("rec", ty, tuple(fs))


def rec_get(v, name):
    if v.kind == "rec":
        for n, x in v.args[1]:
            if n == name:
                return x
        raise Unsupported("no field %s in %s" % (name, v.args[0]))
    if v.kind == "vite":
        return ite(v.args[0], rec_get(v.args[1], name), rec_get(v.args[2], name))
    raise Unsupported("field %s of %s" % (name, v.kind))


def rec_has(v, name):
    return isinstance(v, Node) and v.kind == "rec" and any(n == name for n, _ in v.args[1])


def rec_set(v, name, x):
    if v.kind == "vite":
        return ite(v.args[0], rec_set(v.args[1], name, x), rec_set(v.args[2], name, x))
    if v.kind != "rec":
        raise Unsupported("store field %s of %s" % (name, v.kind))
    out = []
    done = False
    for n, o in v.args[1]:
        if n == name:
            out.append((n, x))
            done = True
        else:
            out.append((n, o))
    if not done:
        out.append((name, x))
    return T("rec", v.args[0], tuple(out))


def follow(v, path):
    """sub-value of a symbolic value along a leaf path"""
    i = 0
    while i < len(path):
        p = path[i]
        if isinstance(v, Poly):
            if p == "re":
                v = re_im(v)[0]
            elif p == "im":
                v = re_im(v)[1]
            else:
                raise Unsupported("path %s in number" % (p,))
        elif isinstance(v, Node) and v.kind == "vite":
            return ite(v.args[0], follow(v.args[1], path[i:]), follow(v.args[2], path[i:]))
        elif isinstance(v, Node) and v.kind == "rec":
            if p == "base":
                hit = [x for n, x in v.args[1] if n.startswith("__base:")]
                if not hit:
                    raise Unsupported("no base")
                v = hit[0]
            else:
                v = rec_get(v, p)
        elif is_seq(v) and p.isdigit():
            v = select(v, P(int(p)))
        elif isinstance(v, Node) and v.kind in ("leaf", "ssym", "fnsym"):
            return T(v.kind, v.args[0], v.args[1] + tuple(path[i:]), v.args[2])
        else:
            raise Unsupported("path %s in %s" % (p, getattr(v, "kind", v)))
        i += 1
    return v


def _resolve(base):
    """value denoted by a leaf base after substitution, None if still symbolic"""
    if base[0] == "elem":
        s = base[1]
        if isinstance(s, Node) and s.kind == "ssym":
            return None
        return select(s, to_poly(base[2]))
    if base[0] == "mu":
        b = base[1]
        if isinstance(b, Node) and b.kind in ("mu", "bv", "fv"):
            return None
        return b
    if base[0] == "opq":
        return select(base[1], to_poly(base[2]))
    return None


APPLY = [None]


def _rb_leaf(base, path, sort):
    v = _resolve(base)
    if v is None:
        if base[0] == "elem" and len(base) == 3:
            base = ("elem", base[1], to_poly(base[2]))
            if has_gate(base[2]):
                return cases(base[2], lambda q: leaf_val(("elem", base[1], q), path, sort))
        if base[0] == "app" and base[1] == "rank":
            return terms.RANK(base[2][0])
        if base[0] == "app" and base[1] in ("sin", "cos", "tan") and sort == "real":
            return APPLY[0](base[1], to_poly(base[2][0]))
        if base[0] == "app" and sort in ("ind", "int", "real", "vec"):
            return lift_app(base[1], base[2], lambda a: P(T("leaf", ("app", base[1], a), path,
                                                            sort)))
        if base[0] == "app" and base[1] == "rank":
            return terms.RANK(base[2][0])
        n = T("leaf", base, path, sort)
        return P(n) if sort in ("ind", "int", "real", "vec") else n
    return follow(v, path)


def leaf_val(base, path, sort):
    n = T("leaf", base, path, sort)
    return P(n) if sort in ("ind", "int", "real", "vec") else n


def has_gate(p):
    return first_ind(p) is not None


def lift_app(f, args, mk):
    """move gates out of the numeric arguments of an uninterpreted application"""
    for i, a in enumerate(args):
        if isinstance(a, Poly):
            if is_bool(a):
                continue
            if first_ind(a) is not None:
                return cases(a, lambda q: lift_app(f, args[:i] + (q,) + args[i + 1:], mk))
    return mk(args)


terms._rebuild["leaf"] = _rb_leaf


def _rb_ssym(base, path, ety):
    v = _resolve(base)
    if v is None:
        return T("ssym", base, path, ety)
    return follow(v, path)


terms._rebuild["ssym"] = _rb_ssym


def _rb_fnsym(base, path, ty):
    v = _resolve(base)
    if v is None:
        return T("fnsym", base, path, ty)
    return follow(v, path)


terms._rebuild["fnsym"] = _rb_fnsym


def mk_app(f, args, rett):
    """application of an uninterpreted pure function"""
    args = tuple(args)
    k, d = classify(rett)
    if k in ("ind", "int", "real", "vec"):
        def mk(a):
            return num_leaf(("app", f, a), (), k, k == "int" and d in UNSIGNED)
        return lift_app(f, args, mk)
    return mk_symval(rett, ("app", f, args))


# --------------------------------------------------------------------------
# gates


def v_ite(c, a, b):
    if a is b:
        return a
    if isinstance(a, Poly) or isinstance(b, Poly):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return c * (a - b) + b
        raise Unsupported("gate between number and structure")
    lc = c.const()
    if lc is not None:
        return a if lc else b
    if a.kind == "unk" or b.kind == "unk":
        return T("vite", c, a, b)
    if a.kind == "rec" and b.kind == "rec" and len(a.args[1]) == len(b.args[1]):
        fs = []
        for (n, x), (m, y) in zip(a.args[1], b.args[1]):
            if n != m:
                break
            fs.append((n, ite(c, x, y)))
        else:
            return T("rec", a.args[0], tuple(fs))
    if is_seq(a) and is_seq(b):
        return s_ite(c, a, b)
    if a.kind == "iter" and b.kind == "iter" and a.args[0] is b.args[0] and \
            a.args[2] == b.args[2]:
        return T("iter", a.args[0], ite(c, a.args[1], b.args[1]), a.args[2])
    if a.kind == "vite" and a.args[0] == c:
        a = a.args[1]
    if b.kind == "vite" and b.args[0] == c:
        b = b.args[2]
    if a is b:
        return a
    return T("vite", c, a, b)


terms.v_ite = v_ite
terms._rebuild["vite"] = lambda c, a, b: ite(to_poly(c), a, b)
terms._rebuild["rec"] = lambda ty, fs: T("rec", ty, fs)
terms._rebuild["iter"] = lambda r, i, v: T("iter", r, to_poly(i), v)


def parts(s):
    return list(s.args[0]) if s.kind == "scat" else [s]


def scat(ps):
    out = []
    for p in ps:
        if p.kind == "scat":
            out.extend(p.args[0])
        elif p.kind == "sfun" and p.args[0].const() == 0:
            continue
        else:
            out.append(p)
    # glue adjacent comprehensions of one family
    res = []
    for p in out:
        if res:
            g = glue(res[-1], p)
            if g is not None:
                res[-1] = g
                continue
        res.append(p)
    if len(res) == 1:
        return res[0]
    return T("scat", tuple(res))


def glue(a, b):
    if a.kind == "sfun" and b.kind == "sfun":
        # b(k) == a(k + len a) ?
        na = a.args[0]
        v = fresh_var()
        NONNEG.add(v)
        if b.args[0].const() is not None and b.args[0].const() <= 1 and na.const() is not None:
            return None
        fa = sfun_at(a, P(v) + na)
        fb = sfun_at(b, P(v))
        if fa == fb:
            return SFUN_raw(na + b.args[0], lambda k: sfun_at(a, k))
        return None
    return None


def sfun_at(s, i):
    n, body = s.args
    l = blevel(s)
    for b in free(body):
        if b.kind == "bv" and b.args[0] == l:
            return subst(body, {b: i})
    return body


def SFUN_raw(n, f):
    v = fresh_var()
    body = with_range(v, n, lambda: f(P(v)))
    l, (bb,) = close([v], (body,))
    return T("sfun", n, bb)


def SFUN(n, f):
    """[f(0), ..., f(n-1)]"""
    c = n.const()
    if c is not None and c <= 16:
        return scat([T("sone", f(P(i))) for i in range(int(c))])
    v = fresh_var()
    body = with_range(v, n, lambda: f(P(v)))
    e = eta(v, n, body)
    if e is not None:
        return e
    l, (bb,) = close([v], (body,))
    return T("sfun", n, bb)


def eta(v, n, body):
    """[s[0], s[1], ...] = s"""
    s = elem_source(body, v)
    if s is not None and not occurs(v, s) and length(s) == n:
        if select(s, P(v)) == body:
            return s
    return None


def elem_source(x, v):
    if isinstance(x, Poly):
        for a in x.atoms():
            r = elem_source(a, v)
            if r is not None:
                return r
        return None
    if isinstance(x, Node):
        if x.kind in ("leaf", "ssym", "fnsym"):
            b = x.args[0]
            if b[0] == "elem" and b[2] == P(v):
                return b[1]
            if b[0] == "elem":
                return elem_source(b[1], v)
            return None
        if x.kind == "rec":
            for _, y in x.args[1]:
                r = elem_source(y, v)
                if r is not None:
                    return r
    return None


def _re_sfun(node, s):
    fresh, m = open_binder(node)
    n, body = node.args
    body = subst(body, m)
    n2 = to_poly(s(n))
    v = fresh[0]
    b2 = with_range(v, n2, lambda: s(body))
    return SFUN(n2, lambda k: subst(b2, {v: k}))


BINDER_SPEC["sfun"] = _re_sfun


def SFOR(v, n, body):
    """concatenation of body(0), ..., body(n-1)"""
    if body is EMPTY:
        return EMPTY
    c = n.const()
    if c is not None and c <= 16:
        return scat([subst(body, {v: P(i)}) for i in range(int(c))])
    if body.kind == "sone":
        b = body.args[0]
        return SFUN(n, lambda k: subst(b, {v: k}))
    l, (bb,) = close([v], (body,))
    return T("sfor", n, bb)


def _re_sfor(node, s):
    fresh, m = open_binder(node)
    n, body = node.args
    body = subst(body, m)
    n2 = to_poly(s(n))
    b2 = with_range(fresh[0], n2, lambda: s(body))
    return SFOR(fresh[0], n2, b2)


BINDER_SPEC["sfor"] = _re_sfor


def s_ite(c, a, b):
    if a is b:
        return a
    k = c.const()
    if k is not None:
        return a if k else b
    if a.kind == "supd" and b.kind == "supd" and a.args[0] is b.args[0] and \
            a.args[1] == b.args[1]:
        return SUPD(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    if a.kind == "supd" and a.args[0] is b:
        return SUPD(b, a.args[1], ite(c, a.args[2], select(b, a.args[1])))
    if b.kind == "supd" and b.args[0] is a:
        return SUPD(a, b.args[1], ite(c, select(a, b.args[1]), b.args[2]))
    pa, pb = parts(a), parts(b)
    pre = []
    while pa and pb and pa[0] is pb[0]:
        pre.append(pa.pop(0))
        pb.pop(0)
    post = []
    while pa and pb and pa[-1] is pb[-1]:
        post.insert(0, pa.pop())
        pb.pop()
    while pa and pb and pa[0].kind == "sone" and pb[0].kind == "sone":
        pre.append(T("sone", ite(c, pa.pop(0).args[0], pb.pop(0).args[0])))
    mid = []
    if pa or pb:
        x, y = scat(pa), scat(pb)
        mid = [SIF(c, x, y)]
    return scat(pre + mid + post)


def SIF(c, x, y):
    if x is y:
        return x
    a = first_ind(c)
    # canonical orientation: an indicator gate has its literal positive
    if len(c.atoms()) == 1 and a is not None and c == C1 - P(a):
        return T("sif", P(a), y, x)
    if len(c.atoms()) > 1 and a is not None:
        # decision tree over the indicators of the guard
        h, l = drop_ind(c, a, 1), drop_ind(c, a, 0)
        sh = SIF(h, x, y) if h.const() is None else (x if h.const() else y)
        sl = SIF(l, x, y) if l.const() is None else (x if l.const() else y)
        if sh is sl:
            return sh
        return T("sif", P(a), sh, sl)
    return T("sif", c, x, y)


terms._rebuild["sif"] = lambda c, a, b: s_ite(to_poly(c), a, b)
terms._rebuild["scat"] = lambda ps: scat(list(ps))


def length(s):
    k = s.kind
    if k == "ssym":
        n = T("len", s)
        return P(n)
    if k == "sone":
        return C1
    if k == "sfun":
        return s.args[0]
    if k == "scat":
        r = C0
        for p in s.args[0]:
            r = r + length(p)
        return r
    if k == "sif":
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if k in ("supd", "smap", "sacc", "ssort"):
        return length(s.args[0])
    if k == "srem":
        return length(s.args[0]) - 1
    if k == "sfor":
        v, m = open_binder(s)
        n, body = s.args
        body = subst(body, m)
        return SUM(v[0], n, with_range(v[0], n, lambda: length(body)))
    if k == "sfold":
        # iterations that only overwrite elements, or append a fixed number of them
        pos = s.args[0]
        d = longer(s.args[4][pos], ("mu", bv(blevel(s), pos + 1)))
        if d is not None:
            return length(s.args[3][pos]) + s.args[2] * d
        return P(T("len", s))
    if k == "sunk":
        return P(T("len", s))
    raise Unsupported("length of " + k)


def longer(b, mu):
    """number of elements by which b is longer than mu, if it is always the same"""
    while b.kind in ("supd", "smap", "sacc", "ssort"):
        b = b.args[0]
    if b.kind == "ssym":
        return 0 if b.args[0] == mu and not b.args[1] else None
    if b.kind != "scat":
        return None
    r, own = 0, 0
    for p in b.args[0]:
        d = longer(p, mu)
        if d is None:
            if p.kind not in ("sone",):
                return None
            d = 1
        else:
            own += 1
        r += d
    return r if own == 1 else None


terms._rebuild["len"] = lambda s: length(s)


def select(s, i):
    """element i (0 <= i < length taken for granted)"""
    i = to_poly(i)
    if first_ind(i) is not None and s.kind != "sone":
        return cases(i, lambda q: select(s, q))
    k = s.kind
    if k == "sone":
        return s.args[0]
    if k == "ssym":
        return mk_symval(s.args[2], ("elem", s, i))
    if k == "sfun":
        return sfun_at(s, i)
    if k == "scat":
        ps = s.args[0]
        if not ps:
            raise Unsupported("element of an empty sequence")
        return _sel_parts(list(ps), i, C0)
    if k == "sif":
        return ite(s.args[0], select(s.args[1], i) if s.args[1] is not EMPTY
                   else select(s.args[2], i),
                   select(s.args[2], i) if s.args[2] is not EMPTY else select(s.args[1], i))
    if k == "supd":
        e = EQ(i, s.args[1])
        c = e.const()
        if c == 1:
            return s.args[2]
        if c == 0:
            return select(s.args[0], i)
        return ite(e, s.args[2], select(s.args[0], i))
    if k == "smap":
        r = smap_select(s, i)
        if r is not None:
            return r
        return opaque_elem(s, i)
    if k == "sacc":
        base = select(s.args[0], i)
        vs, m = open_binder(s)
        _, n, idx, val = s.args
        idx, val = subst(idx, m), subst(val, m)
        return base + SUM(vs[0], n, with_range(vs[0], n, lambda: EQ(idx, i) * val))
    if k == "srem":
        b, j = s.args
        return ite(LT(i, j), select(b, i), select(b, i + 1))
    if k == "sfor":
        # pieces of one length: quotient and remainder
        vs, m = open_binder(s)
        n, body = s.args
        body = subst(body, m)
        L = with_range(vs[0], n, lambda: length(body))
        if not occurs(vs[0], L):
            CTX.push()
            CTX.add(i)
            CTX.add(L * n - 1 - i)
            try:
                q, r = terms.IDIV(i, L), terms.IMOD(i, L)
            finally:
                CTX.pop()
            if first_ind(q) is None and first_ind(r) is None:
                return select(subst(body, {vs[0]: q}), r)
    return opaque_elem(s, i)


def opaque_elem(s, i):
    et = elem_type(s)
    if et is None:
        raise Unsupported("element of " + s.kind)
    return mk_symval(et, ("opq", s, i))


def elem_type(s):
    k = s.kind
    if k == "ssym":
        return s.args[2]
    if k == "scat":
        for p in s.args[0]:
            t = elem_type(p)
            if t:
                return t
        return None
    if k in ("sone",):
        v = s.args[0]
        if isinstance(v, Node) and v.kind == "rec":
            return v.args[0]
        if isinstance(v, Poly):
            return "double"
        return None
    if k == "sfun":
        v = s.args[1]
        if isinstance(v, Node) and v.kind == "rec":
            return v.args[0]
        return "double"
    if k in ("supd", "smap", "sacc", "ssort", "srem"):
        return elem_type(s.args[0]) or (elem_type(T("sone", s.args[3]))
                                        if k == "smap" else None)
    if k == "sif":
        return elem_type(s.args[1]) or elem_type(s.args[2])
    if k == "sfor":
        return elem_type(s.args[1])
    if k == "sfold":
        return s.args[1]
    return None


def _sel_parts(ps, i, off):
    if len(ps) == 1:
        return select(ps[0], i - off)
    L = length(ps[0])
    c = LT(i, off + L)
    k = c.const()
    if k == 1:
        return select(ps[0], i - off)
    if k == 0:
        return _sel_parts(ps[1:], i, off + L)
    CTX.push()
    CTX.assume(c)
    a = select(ps[0], i - off)
    CTX.pop()
    CTX.push()
    CTX.assume(NOT(c))
    b = _sel_parts(ps[1:], i, off + L)
    CTX.pop()
    return ite(c, a, b)


def smap_solve(vars_, ranges, idx, i):
    """invert i = idx(k1, ..., km) for mixed-radix forms; returns ({var: poly}, inrange) or None"""
    rest = idx
    coefs = {}
    for v in vars_:
        l = coef_of(rest, v)
        if l is None:
            return None
        c, rest = l
        if c.const() == 0:
            return None
        coefs[v] = c
    d = i - rest
    # order by divisibility: outermost coefficient is largest
    order = list(vars_)
    sol = {}
    inr = C1
    cur = d
    for q, v in enumerate(order):
        c = coefs[v]
        if q == len(order) - 1:
            if c == C1:
                sol[v] = cur
            elif c == -C1:
                sol[v] = -cur
            else:
                return None
        else:
            # inner part must be smaller than c
            inner_max = C0
            for w in order[q + 1:]:
                inner_max = inner_max + coefs[w] * (ranges[w] - 1)
            if not prove_nonneg(c - 1 - inner_max):
                return None
            if prove_nonneg(cur):
                sol[v] = IDIV(cur, c)
                cur = IMOD(cur, c)
            else:
                return None
    for v in vars_:
        inr = inr * GE0(sol[v]) * GE0(ranges[v] - 1 - sol[v])
    return sol, inr


def coef_of(p, v):
    """p = c*v + rest with c, rest free of v"""
    c, r = {}, {}
    for m, k in p.t.items():
        hit = [(a, e) for a, e in m if a is v]
        if hit:
            if hit[0][1] != 1:
                return None
            m2 = tuple(x for x in m if x[0] is not v)
            for a, e in m2:
                if occurs(v, a):
                    return None
            c[m2] = k
        else:
            for a, e in m:
                if occurs(v, a):
                    return None
            r[m] = k
    return Poly(c), Poly(r)


def smap_select(s, i):
    base, n, idx, val = s.args
    vs, m = open_binder(s)
    ns = n if isinstance(n, tuple) else (n,)
    vs = list(vs[:len(ns)])
    while len(vs) < len(ns):
        vs.append(fresh_var())
    ns = [subst(x, m) for x in ns]
    idx, val = subst(idx, m), subst(val, m)
    for v in vs:
        NONNEG.add(v)
    if len(vs) == 1 and not occurs(vs[0], idx):
        # one slot written n times: the last one stays
        e = EQ(idx, i) * GE0(ns[0] - 1)
        return ite(e, subst(val, {vs[0]: ns[0] - 1}), select(base, i))
    if any(occurs(v, x) for v in vs for x in ns):
        return None
    r = smap_solve(vs, dict(zip(vs, ns)), idx, i)
    if r is None:
        return None
    sol, inr = r
    if inr.const() == 0:
        return select(base, i)
    CTX.push()
    CTX.assume(inr)
    w = subst(val, sol)
    CTX.pop()
    if inr.const() == 1:
        return w
    return ite(inr, w, select(base, i))


def SUPD(s, i, v):
    i = to_poly(i)
    k = s.kind
    if k == "sif" and first_ind(i) is None:
        return s_ite(s.args[0], SUPD(s.args[1], i, v) if s.args[1] is not EMPTY else EMPTY,
                     SUPD(s.args[2], i, v) if s.args[2] is not EMPTY else EMPTY)
    if k == "supd":
        b, j, w = s.args
        e = EQ(i, j).const()
        if e == 1:
            return SUPD(b, i, v)
        if e == 0 and i.const() is not None and j.const() is not None and \
                i.const() < j.const():
            return SUPD(SUPD(b, i, v), j, w)
    if k == "sone" and i.const() == 0:
        return T("sone", v)
    if k == "scat":
        off = C0
        ps = list(s.args[0])
        for q, p in enumerate(ps):
            L = length(p)
            inn = (GE0(i - off) * LT(i, off + L)).const()
            if inn == 1:
                if p.kind in ("sone", "scat", "supd", "sif"):
                    ps[q] = SUPD(p, i - off, v)
                else:
                    ps[q] = T("supd", p, i - off, v)
                return scat(ps)
            if inn is None:
                break
            off = off + L
    if not isinstance(v, Poly) or True:
        try:
            if select(s, i) == v:
                return s
        except Unsupported:
            pass
    return T("supd", s, i, v)


terms._rebuild["supd"] = lambda s, i, v: SUPD(s, to_poly(i), v)


def SMAP(vs, ns, base, idx, val):
    """for all k in the box: base[idx(k)] = val(k)"""
    if len(vs) == 1 and idx == P(vs[0]):
        n = ns[0]
        L = length(base)
        if L == n:
            v = vs[0]
            return SFUN(n, lambda k: subst(val, {v: k}))
        if prove_nonneg(L - n):
            v = vs[0]
            return scat([SFUN(n, lambda k: subst(val, {v: k})), slice_(base, n, L)])
    if len(vs) == 1:
        co = coef_of(idx, vs[0])
        if co is not None and co[0] == C1 and prove_nonneg(co[1]):
            v, n, off = vs[0], ns[0], co[1]
            L = length(base)
            if prove_nonneg(L - n - off):
                return scat([slice_(base, C0, off), SFUN(n, lambda k: subst(val, {v: k})),
                             slice_(base, off + n, L)])
    l, (nn, ii, vv) = close(list(vs), (tuple(ns), idx, val))
    return T("smap", base, nn, ii, vv)


def _re_smap(node, s):
    fresh, m = open_binder(node)
    base, ns, idx, val = node.args
    vs = fresh[:len(ns)]
    while len(vs) < len(ns):
        vs.append(fresh_var())
    ns, idx, val = subst(ns, m), subst(idx, m), subst(val, m)
    ns2 = tuple(to_poly(s(x)) for x in ns)
    CTX.push()
    for v, n in zip(vs, ns2):
        NONNEG.add(v)
        CTX.add(P(v))
        CTX.add(n - 1 - P(v))
    i2, v2 = to_poly(s(idx)), s(val)
    CTX.pop()
    return SMAP(vs, ns2, s(base), i2, v2)


BINDER_SPEC["smap"] = _re_smap


def SACC(v, n, base, idx, val):
    if not val.t:
        return base
    if not occurs(v, idx):
        return SUPD(base, idx, select(base, idx) + SUM(v, n, val))
    l, (ii, vv) = close([v], (idx, val))
    return T("sacc", base, n, ii, vv)


def _re_sacc(node, s):
    fresh, m = open_binder(node)
    base, n, idx, val = node.args
    idx, val = subst(idx, m), subst(val, m)
    n2 = to_poly(s(n))
    v = fresh[0]
    i2, v2 = with_range(v, n2, lambda: (to_poly(s(idx)), to_poly(s(val))))
    return SACC(v, n2, s(base), i2, v2)


BINDER_SPEC["sacc"] = _re_sacc


def slice_(s, lo, hi):
    """s[lo:hi]"""
    n = hi - lo
    c = n.const()
    if c is not None and c <= 0:
        return EMPTY
    L = length(s)
    if not lo.t and hi == L:
        return s
    if s.kind == "scat":
        out = []
        off = C0
        ok = True
        for p in s.args[0]:
            pl = length(p)
            end = off + pl
            # entirely inside / outside?
            if prove_nonneg(off - lo) and prove_nonneg(hi - end):
                out.append(p)
            elif prove_nonneg(lo - end) or prove_nonneg(off - hi):
                pass
            elif prove_nonneg(lo - off) and prove_nonneg(end - lo) and prove_nonneg(hi - end):
                out.append(slice_(p, lo - off, pl))
            elif prove_nonneg(off - lo) and prove_nonneg(hi - off) and prove_nonneg(end - hi):
                out.append(slice_(p, C0, hi - off))
            elif prove_nonneg(lo - off) and prove_nonneg(end - hi):
                out.append(slice_(p, lo - off, hi - off))
            else:
                ok = False
                break
            off = end
        if ok:
            return scat(out)
    if c is not None and c <= 16:
        return scat([T("sone", select(s, lo + i)) for i in range(int(c))])
    return SFUN(n, lambda k: select(s, lo + k))


def reverse(s):
    k = s.kind
    if k == "sone":
        return s
    if k == "scat":
        return scat([reverse(p) for p in reversed(s.args[0])])
    if k == "sif":
        return s_ite(s.args[0], reverse(s.args[1]), reverse(s.args[2]))
    if k == "sfor":
        v, m = open_binder(s)
        n, body = s.args
        body = subst(body, m)
        w = fresh_var()
        b2 = with_range(w, n, lambda: reverse(subst(body, {v[0]: n - 1 - P(w)})))
        return SFOR(w, n, b2)
    L = length(s)
    return SFUN(L, lambda j: select(s, L - 1 - j))


def total(s, f=lambda x: x):
    """sum of f(element) over the sequence"""
    k = s.kind
    if k == "sone":
        return f(s.args[0])
    if k == "scat":
        r = C0
        for p in s.args[0]:
            r = r + total(p, f)
        return r
    if k == "sif":
        return ite(s.args[0], total(s.args[1], f), total(s.args[2], f))
    if k == "sfor":
        v, m = open_binder(s)
        n, body = s.args
        body = subst(body, m)
        return SUM(v[0], n, with_range(v[0], n, lambda: total(body, f)))
    if k == "supd":
        b, i, x = s.args
        return total(b, f) + f(x) - f(select(b, i))
    if k == "sacc" and f(C1) == C1 and f(C0) == C0:
        base, n, idx, val = s.args
        v, m = open_binder(s)
        return total(base, f) + SUM(v[0], n, subst(val, m))
    if k == "ssort":
        return total(s.args[0], f)
    if k == "srem":
        return total(s.args[0], f) - f(select(s.args[0], s.args[1]))
    L = length(s)
    v = fresh_var()
    return SUM(v, L, with_range(v, L, lambda: f(select(s, P(v)))))


terms._rebuild["srem"] = lambda s, i: SREM(s, to_poly(i))


def SREM(s, i):
    if s.kind == "scat":
        off = C0
        ps = list(s.args[0])
        for q, p in enumerate(ps):
            L = length(p)
            inn = (GE0(i - off) * LT(i, off + L)).const()
            if inn == 1:
                if p.kind == "sone":
                    del ps[q]
                else:
                    ps[q] = T("srem", p, i - off)
                return scat(ps)
            if inn is None:
                break
            off = off + L
    if s.kind == "sone" and i.const() == 0:
        return EMPTY
    if s.kind == "sif":
        return s_ite(s.args[0], SREM(s.args[1], i) if s.args[1] is not EMPTY else EMPTY,
                     SREM(s.args[2], i) if s.args[2] is not EMPTY else EMPTY)
    return T("srem", s, i)


def SINS(s, i, v):
    L = length(s)
    return scat([slice_(s, C0, i), T("sone", v), slice_(s, i, L)])


def SSORT(s, f):
    """s sorted by the strict order f(a, b) -> 0/1"""
    et = elem_type(s)
    c = length(s).const()
    if c is not None and c <= 1:
        return s
    if et is None:
        raise Unsupported("sort of unknown element type")
    if c is not None and c <= 4:
        # a few elements: insertion by compare and exchange
        xs = [select(s, P(i)) for i in range(int(c))]
        for i in range(1, len(xs)):
            for j in range(i, 0, -1):
                g = f(xs[j], xs[j - 1])
                xs[j - 1], xs[j] = ite(g, xs[j], xs[j - 1]), ite(g, xs[j - 1], xs[j])
        return scat([T("sone", x) for x in xs])
    a, b = T("mu", next(terms._fresh), "elt"), T("mu", next(terms._fresh), "elt")
    va, vb = mk_symval(et, ("mu", a)), mk_symval(et, ("mu", b))
    body = f(va, vb)
    l = level((body,)) + 1
    bb = subst(body, {a: bv(l, 0), b: bv(l, 1)})
    return T("ssort", s, et, bb)


def _sort_hook(S, i, j):
    l = blevel(S)
    return subst(S.args[2], {bv(l, 0): opaque_elem(S, j), bv(l, 1): opaque_elem(S, i)})


terms.SORT_HOOK[0] = _sort_hook
terms.LEN_HOOK[0] = lambda S: length(S)


def _total_hook(S, b, var):
    m = T("mu", next(terms._fresh), "seq")
    sym = T("ssym", ("mu", m), (), S.args[1])
    b = subst(b, {S: sym})
    return total(S.args[0], lambda x: subst(b, {m: T("sone", x), var: C0}))


terms.TOTAL_HOOK[0] = _total_hook


def _re_ssort(node, s):
    base, et, body = node.args
    l = blevel(node)
    a, b = T("mu", next(terms._fresh), "elt"), T("mu", next(terms._fresh), "elt")
    body = s(subst(body, {bv(l, 0): a, bv(l, 1): b}))
    l2 = level((body,)) + 1
    return T("ssort", s(base), et, subst(body, {a: bv(l2, 0), b: bv(l2, 1)}))


BINDER_SPEC["ssort"] = _re_ssort


# --------------------------------------------------------------------------
# generic loops


def FOLD(munodes, k, n, inits, bodies, sorts, which):
    """value of state component `which` after n iterations of the simultaneous update"""
    # drop the components that do not matter
    need = {which}
    ch = True
    while ch:
        ch = False
        for i in list(need):
            fr = free(bodies[i])
            for j, mu in enumerate(munodes):
                if j not in need and mu in fr:
                    need.add(j)
                    ch = True
    keep = sorted(need)
    mus = [munodes[j] for j in keep]
    bs = tuple(bodies[j] for j in keep)
    ins = tuple(inits[j] for j in keep)
    ss = tuple(sorts[j] for j in keep)
    l = level(bs) + 1
    m = {k: P(bv(l, 0))}
    for q, mu in enumerate(mus):
        m[mu] = bv(l, q + 1)
    bs2 = subst(bs, m)
    srt = sorts[which]
    pos = keep.index(which)
    if srt[0] == "seq":
        return T("sfold", pos, srt[1], n, ins, bs2, ss)
    node = T("fold", srt[0], pos, n, ins, bs2, ss)
    return P(node) if srt[0] in ("ind", "int", "real", "vec") else node


def _re_fold(node, s):
    kind = node.kind
    a0, a1, n, ins, bs, ss = node.args
    l = blevel(node)
    kv = fresh_var()
    mus = [T("mu", next(terms._fresh), x[0]) for x in ss]
    m = {bv(l, 0): P(kv)}
    for q, mu in enumerate(mus):
        m[bv(l, q + 1)] = mu
    bs = subst(bs, m)
    n2 = to_poly(s(n))
    bs2 = with_range(kv, n2, lambda: tuple(s(b) for b in bs))
    ins2 = tuple(s(x) for x in ins)
    pos = a1 if kind == "fold" else a0
    c = n2.const()
    if c is not None and c <= 4:
        cur = list(ins2)
        for i in range(int(c)):
            mm = {kv: P(i)}
            for mu, v in zip(mus, cur):
                mm[mu] = v
            cur = [subst(b, mm) for b in bs2]
        return cur[pos]
    return FOLD(mus, kv, n2, list(ins2), list(bs2), list(ss), pos)


BINDER_SPEC["fold"] = _re_fold
BINDER_SPEC["sfold"] = _re_fold


def WHILE_UNK(*a):
    raise Unsupported("loop")


# --------------------------------------------------------------------------
# equality of values


def value_eq(a, b):
    """truth value of a == b for plain data"""
    if isinstance(a, Poly) and isinstance(b, Poly):
        return EQ(a, b)
    if isinstance(a, Node) and isinstance(b, Node):
        if a is b and a.kind != "unk":
            return C1
        if a.kind == "vite":
            return ite(a.args[0], value_eq(a.args[1], b), value_eq(a.args[2], b))
        if b.kind == "vite":
            return ite(b.args[0], value_eq(a, b.args[1]), value_eq(a, b.args[2]))
        if a.kind == "rec" and b.kind == "rec":
            r = C1
            for (n, x), (m, y) in zip(a.args[1], b.args[1]):
                r = r * value_eq(x, y)
            return r
        if is_seq(a) and is_seq(b):
            la, lb = length(a), length(b)
            e = EQ(la, lb)
            if e.const() == 0:
                return C0
            v = fresh_var()
            CTX.push()
            CTX.assume(e)
            q = with_range(v, la, lambda: value_eq(select(a, P(v)), select(b, P(v))))
            CTX.pop()
            return e * ALL(v, la, q)
        if a.kind == "iter" and b.kind == "iter":
            if a.args[0] is not b.args[0]:
                raise Unsupported("iterators of different containers")
            return EQ(a.args[1], b.args[1])
        if is_seq(a) != is_seq(b):
            # what was written to a stream against a string
            a, b = (TEXT[0](a), b) if is_seq(a) else (a, TEXT[0](b))
        return str_eq(a, b)
    raise Unsupported("comparison")


TEXT = [None]
