"""Structured abstract interpreter over the dumped C++ program.

The abstract state maps storage cells to value graphs; branches are evaluated
under their gate and merged, calls are inlined, loops are summarised into
closed forms (sums, comprehensions, first/any, functional updates, folds).
There is exactly one abstract state per program point: no path is enumerated.
"""
import itertools
import time
from fractions import Fraction
from terms import *
import terms
from values import *
import values
import race

T64 = Fraction(2) ** 64
UNROLL = 24


class Budget(Exception):
    pass


class Exit:
    __slots__ = ("kind", "guard", "st", "val")

    def __init__(self, kind, guard, st, val=None):
        self.kind, self.guard, self.st, self.val = kind, guard, st, val


class Frame:
    def __init__(self, fn, this=None):
        self.fn = fn
        self.env = {}
        self.this = this
        self.rets = []
        self.loops = []      # stack of lists collecting break/continue exits
        self.after = []      # conditions that hold whenever the function returns
        self.stale = {}      # references into containers: whether the container has grown since


class Obligation:
    __slots__ = ("kind", "what", "file", "line", "stack", "cond", "a", "b", "facts", "conds",
                 "status", "detail", "group", "why")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))


_cells = itertools.count(1)


def cell_ref(c, path=()):
    return T("ref", c, tuple(path))


def _sym_ref(t, base, path):
    return T("ref", T("cell", "s", base, path, strip_type(t)), ())


values.CELL_HOOK[0] = _sym_ref


def _rb_ref(cell, path):
    if isinstance(cell, Node) and cell.kind == "ref":
        return T("ref", cell.args[0], cell.args[1] + path)
    if isinstance(cell, Node) and cell.kind == "vite":
        return ite(cell.args[0], _rb_ref(cell.args[1], path), _rb_ref(cell.args[2], path))
    return T("ref", cell, path)


def _rb_cell(*a):
    if a and a[0] == "s":
        v = values._resolve(a[1])
        if v is not None:
            return follow(v, a[2])
        if a[1][0] == "elem":
            a = (a[0], ("elem", a[1][1], to_poly(a[1][2])), a[2], a[3])
    return T("cell", *a)


terms._rebuild["ref"] = _rb_ref
terms._rebuild["cell"] = _rb_cell


def ref_ext(r, step):
    if isinstance(r, Node) and r.kind == "ref":
        return T("ref", r.args[0], r.args[1] + (step,))
    if isinstance(r, Node) and r.kind == "vite":
        return ite(r.args[0], ref_ext(r.args[1], step), ref_ext(r.args[2], step))
    raise Unsupported("member of %s" % getattr(r, "kind", r))


def is_ref(v):
    return isinstance(v, Node) and (v.kind == "ref" or
                                    (v.kind == "vite" and is_ref(v.args[1])))


class Interp:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.fns = {int(k): v for k, v in prog["functions"].items()}
        self.globals = {int(k): v for k, v in prog["globals"].items()}
        TY.load(prog["records"])
        self.st = {}
        self.ctype = {}
        self.guard = C1
        self.frame = None
        self.stack = []
        self.obls = []
        self.quiet = 0
        self.steps = 0
        self.long = {}              # loops which were followed in vain
        self.maxsteps = 400000
        self.statics = {}
        self.globcache = {}
        self.line = 0
        self.throws = []
        self.scope = None
        self.frames = []     # callers of the current function
        self.iterated = []   # containers that are iterated over: whether they have grown since
        self.reserved = set()
        self.notes = []
        self.visited = set()
        self.loopctx = []
        self.deadline = None
        self.ncalls = 0
        import models
        self.models = models
        self.ompdepth = 0
        self.race = None            # accesses of the current region are noted here
        self.raceonly = False       # no obligations but those of parallel regions
        self.model = None           # name of the library function being modelled
        self.tid = None             # number of the thread being executed
        self.varnames = {}
        self.omps = {}              # directives executed
        self.ctor_index = None

    # -- state ---------------------------------------------------------------
    def alloc(self, v, t=None):
        c = T("cell", next(_cells))
        self.st[c] = v
        if t is not None:
            self.ctype[c] = strip_type(t)
        return T("ref", c, ())

    def cell_value(self, c):
        v = self.st.get(c)
        if v is None:
            if c.args[0] == "s":
                v = mk_symval(c.args[3], c.args[1], c.args[2])
                self.st[c] = v
            else:
                raise Unsupported("dangling cell")
        return v

    def load(self, r):
        if not isinstance(r, Node):
            return r
        if r.kind == "ref":
            v = self.cell_value(r.args[0])
            for s in r.args[1]:
                v = self.step(v, s)
            if self.race is not None and not self.quiet:
                self.note_read(r, v)
            return v
        if r.kind == "vite" and is_ref(r):
            if self.race is not None and not self.quiet:
                race.access(self, r, "r")
                self.quiet += 1
                try:
                    return self.load(r)
                finally:
                    self.quiet -= 1
            return ite(r.args[0], self.load(r.args[1]), self.load(r.args[2]))
        return r

    def peek(self, r):
        """the value of an object whose elements are not looked at"""
        self.quiet += 1
        try:
            return self.load(r)
        finally:
            self.quiet -= 1

    def note_read(self, r, v):
        mode = "r"
        if self.model is not None and not isinstance(v, Poly):
            if self.model in race.SHAPE:
                return
            if is_seq(v) and self.model not in race.WHOLE:
                mode = "r?"
        race.access(self, r, mode)

    def note_write(self, r, x):
        mode = "w"
        if self.model is not None and self.model not in race.WHOLE and is_seq(x):
            mode = "w?"
        race.access(self, r, mode)

    def havoc(self, x):
        """floating point values do not matter for the places which are accessed"""
        if isinstance(x, Poly) and not terms.is_int_poly(x):
            return P(T("leaf", ("var", "value:%s" % self.line), (), "real"))
        return x

    def step(self, v, s):
        if s[0] == "f":
            if isinstance(v, Poly):
                if s[1] in ("re", "im"):
                    return re_im(v)[0 if s[1] == "re" else 1]
                raise Unsupported("field of number")
            if isinstance(v, Node) and v.kind == "leaf":
                raise Unsupported("field %s of opaque" % s[1])
            return rec_get(v, s[1])
        if s[0] == "i":
            return select(v, s[1])
        raise Unsupported("step")

    def store(self, r, x):
        if self.race is not None and not self.quiet:
            self.note_write(r, x)
            self.quiet += 1
            try:
                return self.store(r, x)
            finally:
                self.quiet -= 1
        if self.raceonly:
            x = self.havoc(x)
        if r.kind == "ref":
            c, path = r.args
            if not path:
                self.st[c] = x
            else:
                self.st[c] = self.update(self.cell_value(c), path, x)
            return
        if r.kind == "vite":
            c, a, b = r.args
            va, vb = self.load(a), self.load(b)
            if a is b:
                return self.store(a, x)
            self.store(a, ite(c, x, va))
            # the second location may alias the first only through distinct paths
            self.store(b, ite(c, self.load(b), x))
            return
        raise Unsupported("store to " + r.kind)

    def update(self, v, path, x):
        if not path:
            return x
        s = path[0]
        if s[0] == "f":
            if isinstance(v, Poly):
                re, im = re_im(v)
                if s[1] == "re":
                    return x + P(I) * im
                return re + P(I) * x
            return rec_set(v, s[1], self.update(rec_get(v, s[1]), path[1:], x))
        i = s[1]
        if len(path) == 1:
            return SUPD(v, i, x)
        return SUPD(v, i, self.update(select(v, i), path[1:], x))

    # -- control -------------------------------------------------------------
    @property
    def alive(self):
        return self.guard.const() != 0

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget("step budget exhausted")
        if self.deadline and self.steps % 64 == 0 and time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def merge_states(self, c, a, b):
        """state equal to a where c holds, b elsewhere"""
        if a is b:
            return a
        k = c.const()
        if k is not None:
            return a if k else b
        out = {}
        small, big = (a, b) if len(a) < len(b) else (b, a)
        for cell, v in a.items():
            w = b.get(cell)
            if w is None:
                if cell.args[0] == "s":
                    w = mk_symval(cell.args[3], cell.args[1], cell.args[2])
                else:
                    out[cell] = v
                    continue
            if v is w or v == w:
                out[cell] = v
            else:
                try:
                    out[cell] = ite(c, v, w)
                except Unsupported as ex:
                    out[cell] = T("unk", next(terms._fresh), str(ex), "obj")
        for cell, w in b.items():
            if cell not in a:
                if cell.args[0] == "s":
                    v = mk_symval(cell.args[3], cell.args[1], cell.args[2])
                    out[cell] = v if v is w else ite(c, v, w)
                else:
                    out[cell] = w
        return out

    def branch(self, c, fa, fb):
        """evaluate fa under c and fb otherwise; returns (value a, value b) merged by the gate"""
        k = c.const()
        if k is not None:
            return fa() if k else fb()
        g = self.guard
        st0 = self.st
        CTX.push()
        CTX.assume(c)
        self.st = dict(st0)
        self.guard = g * c
        try:
            va = fa() if self.alive else None
        finally:
            CTX.pop()
        sta, ga = self.st, self.guard
        CTX.push()
        CTX.assume(NOT(c))
        self.st = dict(st0)
        self.guard = g * NOT(c)
        try:
            vb = fb() if self.alive else None
        finally:
            CTX.pop()
        stb, gb = self.st, self.guard
        if ga.const() == 0:
            self.st, self.guard = stb, gb
            CTX.assume(NOT(c))
            return vb
        if gb.const() == 0:
            self.st, self.guard = sta, ga
            CTX.assume(c)
            return va
        self.st = self.merge_states(c, sta, stb)
        self.guard = ga + gb
        if self.guard != g:
            CTX.assume(self.guard)
        if va is None:
            return vb
        if vb is None:
            return va
        return ite(c, va, vb)

    def merge_exits(self, exits):
        """combine mutually exclusive outcomes; returns (guard, state, value)"""
        exits = [x for x in exits if x.guard.const() != 0]
        if not exits:
            return C0, self.st, None
        last = exits[-1]
        g, st, v = last.guard, last.st, last.val
        for x in reversed(exits[:-1]):
            # x.guard and g are exclusive
            c = x.guard
            st = self.merge_states(c, x.st, st)
            if v is None:
                v = x.val
            elif x.val is not None:
                v = ite(c, x.val, v)
            g = g + c
        return g, st, v

    # -- obligations ---------------------------------------------------------
    def where(self):
        for fn, line in reversed([(f, l) for f, l in self.stack]):
            pass
        fn = self.frame.fn if self.frame else None
        return (fn["file"] if fn else "?", self.line)

    def oblige(self, kind, cond, what, a=None, b=None, status=None, detail=None):
        if self.quiet or (self.raceonly and self.race is None):
            return
        file, line = self.where()
        st = [(f["qual"], f["file"], l) for f, l in self.stack]
        if self.frame:
            st.append((self.frame.fn["qual"], self.frame.fn["file"], self.line))
        self.obls.append(Obligation(kind=kind, what=what, file=file, line=line, stack=st,
                                    cond=cond, a=a, b=b, facts=list(CTX.facts),
                                    conds=list(CTX.conds), status=status, detail=detail))

    def need(self, kind, cond, what):
        """implicit safety obligation at the current point"""
        if self.quiet or not self.alive:
            return
        if self.raceonly and not (self.race is not None and self.race.tid in free(cond)):
            return
        if cond.const() == 1:
            self.oblige(kind, cond, what, status="proved")
        else:
            self.oblige(kind, cond, what)

    # -- references to elements of containers that grow --------------------------
    def watch(self, fr, d, v):
        fr.stale.pop(d, None)
        if self.race is None and not self.raceonly and isinstance(v, Node) and v.kind == "ref" \
                and any(x[0] == "i" for x in v.args[1]):
            fr.stale[d] = self.alloc(C0, "bool")

    def grows(self, ref, only=False):
        """the elements of a vector may have been moved to other memory"""
        if self.race is not None or self.raceonly or ref.kind != "ref":
            return
        if ref in self.reserved:
            return
        if only:
            self.reserved.add(ref)
        cell, path = ref.args
        n = len(path)
        for fr in self.frames + [self.frame]:
            for d, x in fr.stale.items():
                v = fr.env.get(d)
                if v is not None and v.kind == "ref" and v.args[0] is cell \
                        and len(v.args[1]) > n and v.args[1][:n] == path \
                        and v.args[1][n][0] == "i" and x.args[0] in self.st:
                    self.store(x, C1)
        for r, x in self.iterated:
            if r is ref and x.args[0] in self.st:
                self.store(x, C1)

    # -- functions -----------------------------------------------------------
    def fn_key(self, fn):
        return fn["qual"]

    def record_of(self, fn):
        return TY.records.get(fn.get("cls")) if fn.get("cls") else None

    def call_fn(self, fid, this, args):
        """args: list of (value or ref, glvalue flag)"""
        self.tick()
        fn = self.fns[fid]
        rec = self.record_of(fn)
        name = fn["name"]
        if fn["user"] and fn.get("body") is not None:
            return self.inline(fn, this, args)
        if fn["user"] and not name.startswith("omp_"):
            if fn.get("special") in ("copyassign", "moveassign"):
                v = self.load(args[0][0]) if args[0][1] else args[0][0]
                self.store(this, v)
                return this
            if fn.get("dtor"):
                return None
            if fn["qual"].startswith("blaze::DynamicVector"):
                return self.models.call(self, fn, rec, this, args)
            if fn["file"].startswith(self.drivers()) and not fn.get("ctor"):
                return self.uninterpreted(fn, this, args)
            if fn.get("ctor"):
                raise Unsupported("constructor without body " + fn["qual"])
            raise Unsupported("function without body " + fn["qual"])
        return self.models.call(self, fn, rec, this, args)

    def drivers(self):
        return ("/verif/",)

    def uninterpreted(self, fn, this, args):
        q = fn["qual"]
        if q.startswith("vf::"):
            return self.models.vf_call(self, fn, args)
        ps = fn["params"]
        vals = []
        if this is not None and not fn.get("static"):
            vals.append(self.load(this))
        for (a, gl) in args:
            vals.append(self.load(a) if gl else a)
        rn = q
        if fn.get("targs"):
            rn = q + "<" + ",".join(fn["targs"]) + ">"
        rec = self.record_of(fn)
        if rec:
            rn = rec["name"] + "::" + fn["name"]
        if fn["ret"] == "void":
            return None
        if fn["ret"].endswith("&"):
            return _sym_ref(fn["ret"], ("app", rn, tuple(vals)), ())
        if q == "boost::filesystem::without_extension" and isinstance(vals[0], Node):
            r = self.models.without_extension(vals[0])
            if r is not None:
                return r
        return mk_app(rn, vals, fn["ret"])

    def inline(self, fn, this, args, ctor_cell=None):
        if len(self.stack) > 80:
            raise Unsupported("recursion in " + fn["qual"])
        self.ncalls += 1
        if not self.quiet:
            self.visited.add((fn["qual"], fn["file"], fn["line"]))
        fr = Frame(fn, this)
        for p, a in itertools.zip_longest(fn["params"], args):
            if p is None:
                break
            if a is None:
                raise Unsupported("missing argument")
            v, gl = a
            if p["t"].endswith("&"):
                if not gl:
                    v = self.alloc(v)
                fr.env[p["id"]] = v
                self.watch(fr, p["id"], v)
            else:
                if gl:
                    v = self.load(v)
                fr.env[p["id"]] = self.alloc(v, p["t"])
        return self.run_frame(fr, fn)

    def run_frame(self, fr, fn):
        saved = (self.frame, self.guard, self.line)
        model, self.model = self.model, None
        if self.frame:
            self.stack.append((self.frame.fn, self.line))
            self.frames.append(self.frame)
        self.frame = fr
        g0 = self.guard
        self.guard = C1
        CTX.push()
        try:
            if fn.get("ctor"):
                self.run_inits(fn, fr.this)
            self.exec(fn["body"])
        finally:
            CTX.pop()
            self.frame, _, self.line = saved
            self.model = model
            if self.frame:
                self.stack.pop()
                self.frames.pop()
        if self.guard.const() != 0:
            fr.rets.append(Exit("return", self.guard, self.st, None))
        g, st, v = self.merge_exits(fr.rets)
        self.st = st
        self.guard = g0 * g
        if g.const() is None:
            CTX.assume(g)
        elif g.const() == 0:
            self.guard = C0
        else:
            for c in fr.after:
                CTX.assume(c)
        return v

    # -- constructors --------------------------------------------------------
    def ctors(self):
        if self.ctor_index is None:
            self.ctor_index = {}
            for i, f in self.fns.items():
                if f.get("ctor"):
                    self.ctor_index.setdefault(f["cls"], []).append(i)
        return self.ctor_index

    def default_value(self, t, zero=True):
        k, d = classify(t)
        if k in ("ind", "int", "real", "vec"):
            if zero:
                return C0
            return mk_symval(t, ("uninit", next(terms._fresh)))
        if k == "complex":
            return C0
        if k == "str":
            return T("str", "")
        if k == "seq":
            return EMPTY
        if k == "arr":
            et, n = d
            return SFUN(P(n), lambda i: self.default_value(et, zero))
        if k == "tuple":
            return mk_rec(strip_type(t), [(str(i), self.default_value(a, True))
                                          for i, a in enumerate(d)])
        if k == "pair":
            return mk_rec(strip_type(t), [("first", self.default_value(d[0], True)),
                                          ("second", self.default_value(d[1], True))])
        if k == "rec":
            r = TY.records[d]
            m = self.models.default_std(self, r)
            if m is not None:
                return m
            for i in self.ctors().get(d, ()):
                f = self.fns[i]
                if f.get("special") == "default" and f.get("body") is not None:
                    return self.construct_user(f, d, [], zero and f.get("defaulted"))
            return self.blank_record(d, zero, True)
        if k in ("ptr",):
            return T("null")
        if k == "fn":
            return T("null")
        return mk_symval(t, ("uninit", next(terms._fresh)))

    def blank_record(self, rid, zero, inits=False):
        r = TY.records[rid]
        fs = []
        for b in r.get("bases", []):
            k, _ = classify(b["t"])
            if k == "skip":
                continue
            fs.append(("__base:" + strip_type(b["t"]), self.default_value(b["t"], zero)))
        for f in r.get("fields", []):
            if f["t"].endswith("&"):
                fs.append((f["n"], T("null")))
            elif inits and f.get("init") is not None:
                fs.append((f["n"], self.init_value(f["t"], f["init"])))
            else:
                fs.append((f["n"], self.default_value(f["t"], zero)))
        return mk_rec(r["name"], fs)

    def init_value(self, t, e):
        """value of initialiser e for an object of type t"""
        if e is None:
            return self.default_value(t, False)
        if t.endswith("&"):
            v = self.ev(e)
            if e.get("gl"):
                return v
            return self.alloc(v)
        return self.rv(e)

    def raw_record(self, rid, zero):
        """storage of a class object before its constructor initialises the members"""
        r = TY.records[rid]
        fs = []
        for b in r.get("bases", []):
            k, _ = classify(b["t"])
            if k == "skip":
                continue
            bk, bd = classify(b["t"])
            if bk == "rec":
                fs.append(("__base:" + strip_type(b["t"]), self.raw_record(bd, zero)))
            else:
                fs.append(("__base:" + strip_type(b["t"]), self.default_value(b["t"], zero)))
        for f in r.get("fields", []):
            k, d = classify(f["t"])
            if f["t"].endswith("&"):
                fs.append((f["n"], T("null")))
            elif k in ("ind", "int", "real", "vec"):
                fs.append((f["n"], self.default_value(f["t"], zero)))
            elif k == "arr" and classify(d[0])[0] in ("ind", "int", "real") and not zero:
                fs.append((f["n"], mk_symval(f["t"], ("uninit", next(terms._fresh)))))
            elif k == "arr" and classify(d[0])[0] == "ptr" and d[1] <= 64:
                fs.append((f["n"], scat([T("sone", T("null")) for _ in range(d[1])])))
            else:
                fs.append((f["n"], T("undef")))
        return mk_rec(r["name"], fs)

    def construct_user(self, fn, rid, args, zero=False):
        """value of an object built by a user constructor"""
        this = self.alloc(self.raw_record(rid, zero), TY.records[rid]["name"])
        self.run_ctor(fn, this, args)
        return self.load(this)

    def run_ctor(self, fn, this, args):
        self.inline(fn, this, args)

    def run_inits(self, fn, this):
        for i in fn.get("inits") or []:
            self.line = i.get("l") or self.line
            e = i["e"]
            if "field" in i:
                rec = self.record_of(fn)
                ft = next((f["t"] for f in rec["fields"] if f["n"] == i["field"]), "")
                r = ref_ext(this, ("f", i["field"]))
                self.store(r, self.init_value(ft, e))
            elif "base" in i:
                bt = strip_type(i["base"])
                k, _ = classify(bt)
                if k == "skip":
                    continue
                r = ref_ext(this, ("f", "__base:" + bt))
                bk, bd = classify(bt)
                if e["k"] == "InheritedCtor":
                    args = [(self.frame.env[p["id"]], True) for p in fn["params"]
                            if "allocator<" not in strip_type(p["t"])[:20]]
                    g = self.fns[e["f"]]
                    if g["user"] and g.get("body") is not None:
                        self.run_ctor(g, r, args)
                    else:
                        self.store(r, self.models.construct_value(self, bt, args))
                    continue
                if e["k"] == "Construct" and bk == "rec" and self.fns[e["f"]].get("body") is not \
                        None and self.fns[e["f"]]["user"]:
                    self.run_ctor(self.fns[e["f"]], r, [self.arg(a) for a in e["args"]])
                else:
                    self.store(r, self.rv(e))
            elif i.get("delegating"):
                self.run_ctor(self.fns[e["f"]], this, [self.arg(a) for a in e["args"]])

    def ev_construct(self, e):
        fid = e["f"]
        fn = self.fns[fid]
        rid = e.get("r") or fn.get("cls")
        args = e["args"]
        ek, ed = classify(e["t"])
        if ek == "arr" and args and not strip_type(e["t"]).startswith("std::array"):
            one = self.ev_construct(dict(e, t=ed[0]))
            return SFUN(P(ed[1]), lambda i: one)
        if fn.get("special") in ("copy", "move") and len(args) == 1 and \
                (fn.get("defaulted") or fn.get("implicit") or not fn["user"]):
            if not self.models.custom_copy(self, fn):
                return self.rv(args[0])
        if fn["user"] and fn.get("body") is not None:
            return self.construct_user(fn, fn["cls"], [self.arg(a) for a in args], e.get("zero"))
        k, d = classify(e["t"])
        if k == "arr" and not args:
            return self.default_value(e["t"], e.get("zero", False))
        if fn["qual"].startswith("blaze::DynamicVector"):
            return self.models.construct(self, fn, e["t"], [self.arg(a) for a in args], args)
        if fn["user"] and fn.get("special") == "default":
            return self.blank_record(fn["cls"], e.get("zero", False), True)
        if fn["user"] and fn.get("inheriting"):
            raise Unsupported("inheriting constructor call")
        if fn["user"]:
            if fn.get("special") in ("copy", "move"):
                return self.rv(args[0])
            if fn["file"].startswith(self.drivers()):
                vals = []
                for a in args:
                    vals.append(self.rv(a))
                return mk_symval(e["t"], ("app", "new " + TY.records[fn["cls"]]["name"],
                                          tuple(vals)))
            raise Unsupported("constructor " + fn["qual"])
        return self.models.construct(self, fn, e["t"], [self.arg(a) for a in args], args)

    # -- expressions ---------------------------------------------------------
    def arg(self, e):
        v = self.ev(e)
        return (v, bool(e.get("gl")))

    def rv(self, e):
        v = self.ev(e)
        if e.get("gl"):
            return self.load(v)
        return v

    def num(self, e):
        v = self.rv(e)
        if not isinstance(v, Poly):
            raise Unsupported("number expected, got %s" % getattr(v, "kind", v))
        return v

    def cond(self, e):
        v = self.rv(e)
        if not isinstance(v, Poly):
            raise Unsupported("condition on " + getattr(v, "kind", "?"))
        return v

    def ev(self, e):
        self.tick()
        l = e.get("l")
        if l:
            self.line = l
        return getattr(self, "e_" + e["k"], self.e_unknown)(e)

    def e_unknown(self, e):
        raise Unsupported("expression %s %s" % (e["k"], e.get("c", "")))

    def e_Int(self, e):
        return P(int(e["v"]))

    def e_Float(self, e):
        return P(Fraction(e["v"]))

    def e_Bool(self, e):
        return C1 if e["v"] else C0

    def e_Char(self, e):
        return P(int(e["v"]))

    def e_Str(self, e):
        return T("str", e["v"])

    def e_Null(self, e):
        return T("null")

    def e_This(self, e):
        return self.frame.this

    def e_Temp(self, e):
        x = e["e"]
        if x.get("gl"):
            return self.ev(x)
        v = self.ev(x)
        return self.alloc(v)

    def e_Ref(self, e):
        dk = e["dk"]
        if dk == "var":
            r = self.frame.env.get(e["d"])
            if r is None:
                raise Unsupported("variable %s" % e["n"])
            self.varnames[e["d"]] = e["n"]
            x = self.frame.stale.get(e["d"])
            if x is not None:
                old = self.peek(x)
                if old.const() != 0:
                    self.need("alias", NOT(old), "a reference to an element is not used after "
                              "its container has grown")
            return r
        if dk == "static":
            r = self.frame.env.get(e["d"])
            if r is None:
                raise Unsupported("static %s" % e["n"])
            return r
        if dk == "enum":
            return P(int(e["v"]))
        if dk == "fn":
            return T("fnref", e["f"])
        if dk == "global":
            return self.global_ref(e["d"])
        raise Unsupported("reference to %s %s" % (dk, e.get("n")))

    def global_ref(self, d):
        r = self.globcache.get(d)
        if r is not None:
            c = r.args[0]
            if c not in self.st:
                self.st[c] = self.globval[d]
            return r
        g = self.globals[d]
        m = self.models.global_value(self, g)
        if m is None:
            if g.get("constq") and g.get("init") is not None:
                m = self.rv_ctxfree(g["init"])
            else:
                m = mk_symval(g["t"], ("var", g["qual"]))
        if not hasattr(self, "globval"):
            self.globval = {}
        r = self.alloc(m)
        self.globcache[d] = r
        self.globval[d] = m
        return r

    def rv_ctxfree(self, e):
        return self.rv(e)

    def field_is_ref(self, t, name):
        k, d = classify(t)
        if k != "rec":
            return False
        r = TY.records[d]
        for f in r.get("fields", []):
            if f["n"] == name:
                return f["t"].endswith("&")
        return False

    def base_ref(self, b, arrow):
        if arrow:
            r = self.rv(b)
            return self.deref(r)
        v = self.ev(b)
        if b.get("gl"):
            return v
        return self.alloc(v)

    def deref(self, p):
        if isinstance(p, Node):
            if p.kind == "iter":
                return self.iter_ref(p)
            if p.kind == "null":
                self.need("null", C0, "dereference of a null pointer")
                raise Unsupported("null dereference")
            if p.kind == "vite":
                return ite(p.args[0], self.deref(p.args[1]), self.deref(p.args[2]))
        return p

    def iter_ref(self, it):
        ref, idx, rev = it.args
        i = idx - 1 if rev else idx
        if ref.kind in ("ref", "vite"):
            s = self.peek(ref)
            if is_seq(s):
                L = length(s)
                self.need("range", GE0(i) * LT(i, L), "element access through an iterator is "
                          "inside its container")
                return ref_ext(ref, ("i", i))
        if ref.kind == "virt":
            return ref.args[0]
        raise Unsupported("iterator over " + ref.kind)

    def e_Member(self, e):
        if e.get("f"):
            raise Unsupported("bound method")
        b = e["b"]
        r = self.base_ref(b, e["arrow"])
        bt = b["t"]
        if e["arrow"]:
            bt = strip_type(bt)
            if bt.endswith("*"):
                bt = bt[:-1]
        x = ref_ext(r, ("f", e["n"]))
        if self.field_is_ref(bt, e["n"]):
            return self.load(x)
        return x

    def unsigned_type(self, t):
        t = strip_type(t)
        return t in UNSIGNED

    def wrap(self, p, t, may_neg=True):
        t = strip_type(t)
        bits = UNSIGNED.get(t)
        if not bits:
            return p
        M = Fraction(2) ** bits
        q = self.strip_mod(p, M)
        c = q.const()
        if c is not None:
            return P(c % M) if c.denominator == 1 else q
        if prove_nonneg(q):
            return q
        if bits < 32:
            return q
        neg = LT(q, C0)
        return q + neg.scale(M)

    def strip_mod(self, p, M):
        if all((c.denominator != 1 or c % M) for c in p.t.values()):
            return p
        return Poly({m: c for m, c in p.t.items() if c.denominator != 1 or c % M})

    def arith(self, op, a, b, t, rt=None):
        """t: type of the operation"""
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return self.ptr_arith(op, a, b)
        k, d = classify(t)
        if op == "+":
            return self.wrap(a + b, t)
        if op == "-":
            return self.wrap(a - b, t)
        if op == "*":
            return self.wrap(a * b, t)
        if op == "/":
            if k == "int":
                self.need("div", NE(b, C0), "integer division by a non-zero value")
                return self.int_div(a, b, t)
            return a * inverse(b)
        if op == "%":
            self.need("div", NE(b, C0), "remainder by a non-zero value")
            return self.int_mod(a, b, t)
        if op in ("<<", ">>"):
            c = b.const()
            if c is not None and c >= 0:
                if op == "<<":
                    return self.wrap(a.scale(2 ** int(c)), t)
                return IDIV(a, P(2 ** int(c)))
            raise Unsupported("shift")
        if op == "&":
            c = b.const()
            if is_bool(a) and is_bool(b):
                return a * b
            if c == 1 and is_int_poly(a):
                o = odd(a)
                if o is not None:
                    return o
            c2 = a.const()
            if c2 == 1 and is_int_poly(b):
                o = odd(b)
                if o is not None:
                    return o
            for x, m in ((a, b), (b, a)):
                # the lowest bits
                k2 = m.const()
                if k2 is not None and k2 >= 0 and is_int_poly(x) and \
                        (int(k2) + 1) & int(k2) == 0 and prove_nonneg(x):
                    return IMOD(x, P(int(k2) + 1))
            return mk_app("bitand", [a, b], "int")
        if op == "|":
            if is_bool(a) and is_bool(b):
                return OR(a, b)
            return mk_app("bitor", [a, b], "int")
        if op == "^":
            if is_bool(a) and is_bool(b):
                return a + b - (a * b).scale(2)
            return mk_app("bitxor", [a, b], "int")
        raise Unsupported("operator " + op)

    def int_div(self, a, b, t):
        if self.unsigned_type(t) or (prove_nonneg(a) and prove_nonneg(b)):
            return IDIV(a, b)
        if a.const() is not None and b.const() is not None:
            return IDIV(a, b)
        if first_ind(a) is not None:
            return cases(a, lambda q: self.int_div(q, b, t))
        return mk_app("sdiv", [a, b], "long")

    def int_mod(self, a, b, t):
        if self.unsigned_type(t) or (prove_nonneg(a) and prove_nonneg(b)):
            return IMOD(a, b)
        if a.const() is not None and b.const() is not None:
            return IMOD(a, b)
        if first_ind(a) is not None:
            return cases(a, lambda q: self.int_mod(q, b, t))
        return mk_app("smod", [a, b], "long")

    def ptr_arith(self, op, a, b):
        if isinstance(a, Node) and a.kind == "iter":
            ref, idx, rev = a.args
            sg = -1 if rev else 1
            if isinstance(b, Poly):
                b = self.signed(b)
                if op == "+":
                    return T("iter", ref, idx + b.scale(sg), rev)
                if op == "-":
                    return T("iter", ref, idx - b.scale(sg), rev)
            if isinstance(b, Node) and b.kind == "iter" and op == "-":
                self.same_container(a, b)
                return (idx - b.args[1]).scale(sg)
        if isinstance(b, Node) and b.kind == "iter" and op == "+":
            return self.ptr_arith(op, b, a)
        if isinstance(a, Node) and a.kind == "vite":
            return ite(a.args[0], self.ptr_arith(op, a.args[1], b),
                       self.ptr_arith(op, a.args[2], b))
        raise Unsupported("arithmetic on %s" % getattr(a, "kind", a))

    def signed(self, p):
        return self.strip_mod(p, T64)

    def same_container(self, a, b):
        if a.args[0] is not b.args[0]:
            raise Unsupported("iterators into different containers")

    def compare(self, op, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == "==":
                return EQ(a, b)
            if op == "!=":
                return C1 - EQ(a, b)
            if op == "<":
                return LT(a, b)
            if op == ">":
                return LT(b, a)
            if op == "<=":
                return LE(a, b)
            if op == ">=":
                return LE(b, a)
        if isinstance(a, Node) and isinstance(b, Node):
            if a.kind == "vite":
                return ite(a.args[0], self.compare(op, a.args[1], b),
                           self.compare(op, a.args[2], b))
            if b.kind == "vite":
                return ite(b.args[0], self.compare(op, a, b.args[1]),
                           self.compare(op, a, b.args[2]))
            if a.kind == "iter" and b.kind == "iter":
                self.same_container(a, b)
                x, y = a.args[1], b.args[1]
                if a.args[2]:
                    x, y = y, x
                return self.compare(op, x, y)
            if a.kind in ("ref", "null", "iter") and b.kind in ("ref", "null", "iter"):
                if op in ("==", "!="):
                    if a is b:
                        e = C1
                    elif a.kind == "null" or b.kind == "null":
                        e = C0
                    else:
                        e = self.ref_eq(a, b)
                    return e if op == "==" else C1 - e
            if op in ("==", "!="):
                e = value_eq(a, b)
                return e if op == "==" else C1 - e
            if self.is_str(a) and self.is_str(b):
                if op == "<":
                    return str_lt(a, b)
                if op == ">":
                    return str_lt(b, a)
                if op == "<=":
                    return C1 - str_lt(b, a)
                if op == ">=":
                    return C1 - str_lt(a, b)
        raise Unsupported("comparison %s" % op)

    def is_str(self, v):
        return isinstance(v, Node) and (v.kind in ("str", "strcat") or
                                        (v.kind == "leaf" and v.args[2] == "str"))

    def ref_eq(self, a, b):
        if a.kind == "ref" and b.kind == "ref":
            if a.args[0] is not b.args[0]:
                ca, cb = a.args[0], b.args[0]
                if ca.args[0] == "s" and cb.args[0] == "s":
                    return P(T("eq", *sorted((a, b), key=lambda z: z.id)))
                return C0
            r = C1
            pa, pb = a.args[1], b.args[1]
            if len(pa) != len(pb):
                return C0
            for x, y in zip(pa, pb):
                if x[0] != y[0]:
                    return C0
                if x[0] == "f":
                    if x[1] != y[1]:
                        return C0
                else:
                    r = r * EQ(x[1], y[1])
            return r
        raise Unsupported("pointer comparison")

    def e_Bin(self, e):
        op = e["op"]
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        if op in ("&&", "||"):
            return self.logic(op, e["a"], e["b"])
        a = self.rv(e["a"])
        b = self.rv(e["b"])
        self.line = e.get("l") or self.line
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        return self.arith(op, a, b, e["t"])

    def logic(self, op, ea, eb):
        a = self.cond(ea)
        if op == "&&":
            return self.branch(a, lambda: self.cond(eb), lambda: C0)
        return self.branch(a, lambda: C1, lambda: self.cond(eb))

    def e_Assign(self, e):
        op = e["op"]
        if op == "=":
            b = self.rv(e["b"])
            r = self.ev(e["a"])
            self.store(r, b)
            return r
        b = self.rv(e["b"])
        r = self.ev(e["a"])
        a = self.load(r)
        self.line = e.get("l") or self.line
        ct = e.get("ct", e["t"])
        v = self.arith(op[:-1], a, b, ct)
        if isinstance(v, Poly):
            v = self.convert(v, ct, e["t"])
        self.store(r, v)
        return r

    def convert(self, v, ft, tt):
        fk, fd = classify(ft)
        tk, td = classify(tt)
        if not isinstance(v, Poly):
            return v
        if tk == "ind":
            if fk == "ind":
                return v
            return NE(v, C0)
        if tk == "int":
            if fk == "real":
                v = TRUNC(v)
            if td in UNSIGNED:
                return self.wrap(v, td)
            return self.signed(v)
        return v

    def e_Un(self, e):
        op = e["op"]
        if op == "*":
            p = self.rv(e["a"])
            return self.deref(p)
        if op == "&":
            v = self.ev(e["a"])
            return v
        if op in ("++", "--"):
            r = self.ev(e["a"])
            v = self.load(r)
            o = "+" if op == "++" else "-"
            nv = self.arith(o, v, C1, e["a"]["t"])
            self.store(r, nv)
            if e.get("post"):
                return v
            return r
        v = self.rv(e["a"])
        if op == "!":
            return C1 - v
        if op == "-":
            return self.wrap(-v, e["t"])
        if op == "+":
            return v
        if op == "~":
            if self.unsigned_type(e["t"]):
                return self.wrap(-v - 1, e["t"])
            return -v - 1
        raise Unsupported("unary " + op)

    def e_Cond(self, e):
        c = self.cond(e["c"])
        gl = e.get("gl")

        def side(x):
            if gl:
                return self.ev(x)
            return self.rv(x)
        return self.branch(c, lambda: side(e["a"]), lambda: side(e["b"]))

    def e_Cast(self, e):
        ck = e["ck"]
        x = e["e"]
        if ck == "LValueToRValue":
            return self.load(self.ev(x))
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "BitCast",
                  "FunctionToPointerDecay", "BuiltinFnToFnPtr", "FloatingCast",
                  "IntegralToFloating", "LValueBitCast", "Dependent"):
            return self.ev(x)
        if ck == "ArrayToPointerDecay":
            v = self.ev(x)
            if isinstance(v, Node) and v.kind == "str":
                return v
            if is_ref(v) and v.kind == "ref" and v.args[1] == () and \
                    x["t"].startswith("const char"):
                # the characters of a literal: one object for equal literals
                w = self.st.get(v.args[0])
                if isinstance(w, Node) and w.kind == "str":
                    return w
            return T("iter", v, C0, False)
        if ck in ("UncheckedDerivedToBase", "DerivedToBase"):
            v = self.ev(x)
            return self.to_base(v, x, e)
        if ck in ("BaseToDerived",):
            v = self.ev(x)
            if is_ref(v) and v.kind == "ref" and v.args[1] and v.args[1][-1][0] == "f" and \
                    v.args[1][-1][1].startswith("__base:"):
                return T("ref", v.args[0], v.args[1][:-1])
            raise Unsupported("downcast")
        if ck in ("IntegralCast", "FloatingToIntegral", "IntegralToBoolean",
                  "FloatingToBoolean"):
            v = self.rv(x)
            return self.convert(v, x["t"], e["t"])
        if ck == "ToVoid":
            self.ev(x)
            return None
        if ck == "NullToPointer":
            return T("null")
        if ck in ("PointerToBoolean",):
            v = self.rv(x)
            if v.kind == "null":
                return C0
            if v.kind == "leaf":
                return P(T("leaf", ("app", "nonnull", (v,)), (), "ind"))
            return C1
        raise Unsupported("cast " + ck)

    def to_base(self, v, x, e):
        t = strip_type(e["t"])
        ptr = t.endswith("*")
        if ptr:
            t = strip_type(t[:-1])
        xt = strip_type(x["t"])
        if xt.endswith("*"):
            xt = strip_type(xt[:-1])
        k, d = classify(xt)
        if k != "rec":
            return v
        chain = self.base_chain(d, t)
        if chain is None:
            return v
        if not is_ref(v):
            for c in chain:
                v = rec_get(v, c)
            return v
        for c in chain:
            v = ref_ext(v, ("f", c))
        return v

    def base_chain(self, rid, t):
        r = TY.records[rid]
        if not r["user"]:
            return None
        for b in r.get("bases", []):
            bt = strip_type(b["t"])
            if bt == t:
                return ["__base:" + bt]
            k, d = classify(bt)
            if k == "rec":
                c = self.base_chain(d, t)
                if c is not None:
                    return ["__base:" + bt] + c
        return None

    def e_OpCall(self, e):
        if not e.get("f"):
            raise Unsupported("indirect operator call")
        fn = self.fns[e["f"]]
        op = e["op"]
        if op in ("&&", "||"):
            return self.logic(op, e["args"][0], e["args"][1])
        if e["mem"]:
            obj = e["args"][0]
            if op == "=" and not fn["user"]:
                # evaluate the right side first
                rest = [self.arg(a) for a in e["args"][1:]]
                this = self.obj_ref(obj)
            else:
                this = self.obj_ref(obj)
                rest = [self.arg(a) for a in e["args"][1:]]
            self.line = e.get("l") or self.line
            if fn["name"] == "operator()":
                self.quiet += 1
                try:
                    c = self.load(this) if is_ref(this) else this
                finally:
                    self.quiet -= 1
                if isinstance(c, Node) and c.kind == "clo":
                    return self.call_closure(c, rest)
            return self.call_fn(e["f"], this, rest)
        args = [self.arg(a) for a in e["args"]]
        self.line = e.get("l") or self.line
        return self.call_fn(e["f"], None, args)

    def obj_ref(self, obj):
        v = self.ev(obj)
        if obj.get("gl"):
            return v
        if isinstance(v, Node) and v.kind == "clo":
            return v
        return self.alloc(v)

    def e_MCall(self, e):
        fn = self.fns[e["f"]]
        if e.get("arrow"):
            p = self.rv(e["obj"])
            this = self.deref(p)
        else:
            this = self.obj_ref(e["obj"])
        args = [self.arg(a) for a in e["args"]]
        self.line = e.get("l") or self.line
        return self.call_fn(e["f"], this, args)

    def e_Call(self, e):
        args = None
        if e.get("f"):
            fn = self.fns[e["f"]]
            if fn["name"] == "__assert_fail":
                what = self.ev(e["args"][0])
                what = what.args[0] if isinstance(what, Node) and what.kind == "str" else "it"
                self.need("assert", C0, "the assertion holds: %s" % what)
                return None
            args = [self.arg(a) for a in e["args"]]
            self.line = e.get("l") or self.line
            return self.call_fn(e["f"], None, args)
        c = self.rv(e["callee"])
        args = [self.arg(a) for a in e["args"]]
        return self.call_value(c, args, e["t"])

    def call_value(self, c, args, rett=None):
        """call a function value: closure, functor, function pointer, std::function"""
        if not isinstance(c, Node):
            raise Unsupported("call of a number")
        if is_ref(c):
            v = self.load(c)
            if isinstance(v, Node) and v.kind == "rec":
                return self.call_functor(c, v, args)
            if isinstance(v, Node) and v.kind == "leaf" and v.args[2] == "obj":
                return self.call_functor(c, v, args)
            c = v
        if c.kind == "clo":
            return self.call_closure(c, args)
        if c.kind == "fnref":
            return self.call_fn(c.args[0], None, args)
        if c.kind == "fnsym":
            t = c.args[2]
            rt = t[:t.index("(")].strip() if "(" in t else (rett or "double")
            vals = tuple(self.load(a) if gl else a for a, gl in args)
            return mk_app("call", (c,) + vals, rt)
        if c.kind == "vite":
            return self.branch(c.args[0], lambda: self.call_value(c.args[1], args, rett),
                               lambda: self.call_value(c.args[2], args, rett))
        if c.kind == "rec":
            return self.call_functor(self.alloc(c), c, args)
        if c.kind == "stdfn":
            return self.models.call_stdfn(self, c, args)
        raise Unsupported("call of " + c.kind)

    def call_functor(self, ref, v, args):
        ty = v.args[0] if v.kind == "rec" else None
        if ty is None:
            raise Unsupported("call of opaque functor")
        rid = TY.by_name.get(strip_type(ty))
        for i, f in self.fns.items():
            if f.get("cls") == rid and f["name"] == "operator()":
                return self.call_fn(i, ref, args)
        raise Unsupported("functor " + str(ty))

    def call_closure(self, c, args):
        fid, caps, this = c.args[0], c.args[1], c.args[2]
        spec = c.args[3]
        fn = self.fns[fid]
        if spec:
            fn = None
            for s in spec:
                f = self.fns[s]
                if f.get("body") is None:
                    continue
                if len(spec) == 1 or self.spec_match(f, args):
                    fn = f
                    break
            if fn is None:
                raise Unsupported("generic lambda")
        fr = Frame(fn, this)
        for d, v, byref in caps:
            if byref:
                fr.env[d] = v
            else:
                fr.env[d] = self.alloc(v)
        for p, a in zip(fn["params"], args):
            v, gl = a
            if p["t"].endswith("&"):
                fr.env[p["id"]] = v if gl else self.alloc(v)
            else:
                fr.env[p["id"]] = self.alloc(self.load(v) if gl else v)
        self.ncalls += 1
        return self.run_frame(fr, fn)

    def spec_match(self, f, args):
        return len(f["params"]) == len(args)

    def e_Construct(self, e):
        return self.ev_construct(e)

    def e_InheritedCtor(self, e):
        raise Unsupported("inherited constructor")

    def e_InitList(self, e):
        k, d = classify(e["t"])
        args = e["args"]
        if k in ("ind", "int", "real"):
            return self.rv(args[0]) if args else C0
        if k == "complex":
            return self.rv(args[0]) if args else C0
        if k == "arr":
            et, n = d
            if len(args) == 1 and args[0]["k"] == "InitList" and \
                    classify(args[0]["t"])[0] == "arr" and classify(et)[0] != "arr":
                return self.rv(args[0])
            if len(args) == 1 and args[0].get("k") != "InitList" and \
                    classify(args[0]["t"])[0] == "arr":
                return self.rv(args[0])
            if len(args) == 1 and args[0]["k"] == "InitList" and \
                    strip_type(args[0]["t"]) != strip_type(et):
                return self.rv(args[0])
            vals = [T("sone", self.rv(a)) for a in args]
            while len(vals) < n:
                if e.get("filler") is not None:
                    vals.append(T("sone", self.rv(e["filler"])))
                else:
                    vals.append(T("sone", self.default_value(et, True)))
            return scat(vals)
        if k == "rec":
            r = TY.records[d]
            fs = []
            i = 0
            for b in r.get("bases", []):
                bk, _ = classify(b["t"])
                if bk == "skip":
                    continue
                v = self.rv(args[i]) if i < len(args) else self.default_value(b["t"], True)
                fs.append(("__base:" + strip_type(b["t"]), v))
                i += 1
            for f in r.get("fields", []):
                if i < len(args):
                    v = self.init_value(f["t"], args[i])
                elif f.get("init") is not None:
                    v = self.init_value(f["t"], f["init"])
                else:
                    v = self.default_value(f["t"], True)
                fs.append((f["n"], v))
                i += 1
            if not fs:
                return mk_rec(r["name"], [])
            return mk_rec(r["name"], fs)
        if k == "seq":
            return scat([T("sone", self.rv(a)) for a in args])
        if k == "pair":
            return mk_rec(strip_type(e["t"]), [("first", self.rv(args[0])),
                                               ("second", self.rv(args[1]))])
        if len(args) == 1:
            return self.rv(args[0])
        if not args:
            return self.default_value(e["t"], True)
        raise Unsupported("initialiser list of " + e["t"])

    def e_StdInitList(self, e):
        return self.rv(e["e"])

    def e_ValueInit(self, e):
        return self.default_value(e["t"], True)

    def e_Lambda(self, e):
        caps = []
        this = None
        for c in e["caps"]:
            if c.get("this"):
                if c.get("byref"):
                    this = self.frame.this
                else:
                    this = self.alloc(self.load(self.frame.this))
                continue
            if c.get("byref"):
                r = self.frame.env.get(c["d"])
                if r is None and c.get("init") is not None:
                    r = self.ev(c["init"])
                caps.append((c["d"], r, True))
            else:
                if c.get("init") is not None:
                    v = self.rv(c["init"])
                else:
                    v = self.load(self.frame.env[c["d"]])
                caps.append((c["d"], v, False))
        return T("clo", e["f"], tuple(caps), this, tuple(e.get("spec") or ()))

    def e_Subscript(self, e):
        a = self.rv(e["a"])
        b = self.rv(e["b"])
        if isinstance(a, Poly):
            a, b = b, a
        return self.deref(self.ptr_arith("+", a, b))

    def e_Throw(self, e):
        self.frame_throw()
        return None

    def frame_throw(self):
        self.throws.append((self.guard, self.where()))
        self.guard = C0

    def e_ArrayCopy(self, e):
        return self.rv(e["e"])

    # -- statements ----------------------------------------------------------
    def exec(self, s):
        if s is None or not self.alive:
            return
        self.tick()
        l = s.get("l")
        if l:
            self.line = l
        getattr(self, "s_" + s["k"], self.s_unknown)(s)

    def s_unknown(self, s):
        raise Unsupported("statement %s %s" % (s["k"], s.get("c", "")))

    def s_Expr(self, s):
        self.ev(s["e"])

    def s_Null(self, s):
        pass

    def s_Compound(self, s):
        scope, self.scope = self.scope, []
        try:
            for x in s["s"]:
                if not self.alive:
                    break
                self.exec(x)
            if self.scope:
                self.leave_scope()
        finally:
            self.scope = scope

    def exits(self):
        return len(self.frame.rets), [len(l) for l in self.frame.loops]

    def leave_scope(self):
        """destructors of the variables of a block, the last one first"""
        for d, exits in reversed(self.scope):
            this = self.frame.env[d["id"]]
            rets, loops = exits
            early = self.frame.rets[rets:]
            for l, n in zip(self.frame.loops, loops):
                early += l[n:]
            for x in early:
                st, guard = self.st, self.guard
                self.st, self.guard = dict(x.st), x.guard
                CTX.push()
                try:
                    CTX.assume(x.guard)
                    self.call_fn(d["dtor"], this, [])
                    x.st, x.guard = self.st, self.guard
                finally:
                    CTX.pop()
                    self.st, self.guard = st, guard
            if self.alive:
                self.call_fn(d["dtor"], this, [])

    def s_Decl(self, s):
        for d in s["d"]:
            if d is None:
                continue
            self.declare(d)
            if d.get("dtor") is not None and not d.get("static"):
                if self.scope is None:
                    raise Unsupported("destructor outside of a block")
                self.scope.append((d, self.exits()))

    def declare(self, d):
        self.line = d.get("l") or self.line
        t = d["t"]
        if d.get("static") and not (d.get("constq") or d.get("constexpr")):
            # state left behind by earlier calls: arbitrary at first, shared by all calls
            self.frame.env[d["id"]] = _sym_ref(
                t, ("var", "static:%s:%s" % (self.frame.fn["qual"], d["n"])), ())
            if self.race is not None and not d.get("tls"):
                self.race.extra.add(self.frame.env[d["id"]].args[0])
            return
        init = d.get("init")
        if t.endswith("&"):
            v = self.ev(init)
            if not init.get("gl"):
                v = self.alloc(v)
            self.frame.env[d["id"]] = v
            self.watch(self.frame, d["id"], v)
            return
        if init is None:
            v = self.default_value(t, False)
        else:
            v = self.rv(init)
        if not self.alive:
            return
        if self.raceonly:
            v = self.havoc(v)
        self.frame.env[d["id"]] = self.alloc(v, t)

    def s_If(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("var"):
            self.declare(s["var"])
        c = self.cond(s["c"])
        if not self.alive:
            return
        self.branch(c, lambda: self.exec(s["a"]), lambda: self.exec(s["b"]))

    def s_Return(self, s):
        e = s.get("e")
        v = None
        if e is not None:
            rt = self.frame.fn["ret"]
            if rt.endswith("&"):
                v = self.ev(e)
                if not e.get("gl"):
                    v = self.alloc(v)
            else:
                v = self.rv(e)
        if not self.alive:
            return
        self.frame.rets.append(Exit("return", self.guard, self.st, v))
        self.guard = C0
        self.st = dict(self.st)

    def s_Break(self, s):
        self.frame.loops[-1].append(Exit("break", self.guard, self.st))
        self.guard = C0
        self.st = dict(self.st)

    def s_Continue(self, s):
        self.frame.loops[-1].append(Exit("continue", self.guard, self.st))
        self.guard = C0
        self.st = dict(self.st)

    def s_Try(self, s):
        self.exec(s["body"])

    def s_Switch(self, s):
        v = self.num(s["c"])
        body = s["body"]["s"] if s["body"]["k"] == "Compound" else [s["body"]]
        flat = []

        def flatten(x, labels):
            if x["k"] == "Case":
                flatten(x["s"], labels + [x["v"]])
            elif x["k"] == "Default":
                flatten(x["s"], labels + [None])
            else:
                flat.append((labels, x))
        for x in body:
            flatten(x, [])
        exits = []
        self.frame.loops.append(exits)
        g0 = self.guard
        # condition under which execution is "inside" the switch body
        matched = C0
        default_at = None
        seen = C0
        for labels, x in flat:
            for lab in labels:
                if lab is not None:
                    seen = OR(seen, EQ(v, self.num(lab)))
        inside = C0
        for labels, x in flat:
            for lab in labels:
                if lab is None:
                    inside = OR(inside, NOT(seen))
                else:
                    inside = OR(inside, EQ(v, self.num(lab)))
            # still inside = entered and not left
            self.branch(inside, lambda: self.exec(x), lambda: None)
            left = C0
            for ex in exits:
                left = left + ex.guard
            if not self.alive:
                break
        self.frame.loops.pop()
        brk = [x for x in exits if x.kind == "break"]
        cont = [x for x in exits if x.kind == "continue"]
        if cont:
            self.frame.loops[-1].extend(cont)
        outs = brk
        if self.alive:
            outs = brk + [Exit("n", self.guard, self.st)]
        g, st, _ = self.merge_exits(outs)
        self.guard, self.st = g, st

    # -- loops ---------------------------------------------------------------
    def s_For(self, s):
        if s.get("init"):
            self.exec(s["init"])
        c = s.get("c")
        cond = (lambda: self.cond(c)) if c is not None else (lambda: C1)
        inc = s.get("inc")
        self.loop(cond, lambda: self.exec(s["body"]),
                  (lambda: self.ev(inc)) if inc is not None else (lambda: None), s)

    def s_While(self, s):
        self.loop(lambda: self.cond(s["c"]), lambda: self.exec(s["body"]), lambda: None, s)

    def s_Do(self, s):
        # body once, then a while loop
        flag = [True]

        def cond():
            return self.cond(s["c"])
        exits = []
        self.frame.loops.append(exits)
        self.exec(s["body"])
        self.frame.loops.pop()
        brk = [x for x in exits if x.kind == "break"]
        cont = [x for x in exits if x.kind == "continue"]
        outs = cont + ([Exit("n", self.guard, self.st)] if self.alive else [])
        g, st, _ = self.merge_exits(outs)
        self.guard, self.st = g, st
        if self.alive:
            if brk:
                g1 = self.guard
                CTX.push()
                CTX.assume(g1)
                self.loop(cond, lambda: self.exec(s["body"]), lambda: None, s)
                CTX.pop()
            else:
                self.loop(cond, lambda: self.exec(s["body"]), lambda: None, s)
        if brk:
            outs = brk + ([Exit("n", self.guard, self.st)] if self.alive else [])
            self.guard, self.st, _ = self.merge_exits(outs)

    def s_ForRange(self, s):
        self.exec(s["range"])
        self.exec(s["begin"])
        self.exec(s["end"])
        it = None
        if self.race is None and not self.raceonly:
            try:
                at, end = (self.frame.env[s[k]["d"][0]["id"]] for k in ("begin", "end"))
                it, last = self.peek(at), self.peek(end)
            except (KeyError, IndexError):
                pass
        if not isinstance(it, Node) or it.kind != "iter" or it.args[0].kind != "ref":
            def body():
                self.exec(s["var"])
                self.exec(s["body"])
            self.loop(lambda: self.cond(s["c"]), body, lambda: self.ev(s["inc"]), s)
            return
        grown = self.alloc(C0, "bool")
        self.iterated.append((it.args[0], grown))

        def body():
            self.store(grown, C0)
            self.exec(s["var"])
            self.exec(s["body"])

        def inc():
            x = self.peek(grown)
            if x.const() != 0:
                self.need("alias", NOT(x) + x * EQ(self.peek(at).args[1] + 1, last.args[1]),
                          "a container does not grow while it is iterated over")
            self.ev(s["inc"])
        try:
            self.loop(lambda: self.cond(s["c"]), body, inc, s)
        finally:
            self.iterated.pop()

    def s_OMP(self, s):
        words = s["dir"].split()
        if not self.quiet:
            self.omps[(self.frame.fn["file"], s.get("l"))] = s["dir"]
        if s.get("body") is None:
            if self.race is not None:
                self.race.phase += 1
            return
        if self.raceonly and "parallel" in words and self.race is None and not self.quiet:
            self.race_pass(s, words)
        if "parallel" in words and "for" not in words and self.race is None \
                and not worksharing(s["body"]):
            self.each_thread(s, words)
            return
        if self.tid is not None and words[0] in ("single", "master", "masked"):
            self.branch(EQ(self.tid, C0), lambda: self.omp_body(s, words, False), lambda: None)
            return
        self.omp_body(s, words, False)

    def each_thread(self, s, words):
        """the threads of a team one after the other"""
        t = self.alloc(C0, "int")

        def body():
            self.tid = self.load(t)
            self.omp_body(s, words, False)
        saved = self.tid
        try:
            self.loop(lambda: LT(self.load(t), P(self.models.THREADS)), body,
                      lambda: self.store(t, self.load(t) + 1), s)
        finally:
            self.tid = saved

    def omp_vars(self, s, *kinds):
        for c in s.get("clauses") or ():
            if c["k"] in kinds:
                for v in c["v"]:
                    while v and v.get("k") not in ("Ref", None) and v.get("e"):
                        v = v["e"]
                    if v and v.get("k") == "Ref":
                        yield c["k"], v["d"], v.get("t")

    def omp_body(self, s, words, note):
        env = dict(self.frame.env)
        r = self.race
        keep = []
        for k, d, t in self.omp_vars(s, "private", "firstprivate"):
            old = self.frame.env.get(d)
            if old is None:
                continue
            v = self.default_value(t, False) if k == "private" else self.load(old)
            self.frame.env[d] = self.alloc(v, t)
            keep.append((d, old))
        sync = r.sync if r is not None else None
        if r is not None:
            if words[0] in ("critical", "atomic", "ordered"):
                r.sync = sync + ((words[0], s.get("name")),)
            elif words[0] in ("single", "master", "masked"):
                r.sync = sync + (("one", s.get("l"), s.get("c")),)
            elif words[0] in ("task", "sections", "section", "taskloop", "target", "teams",
                              "distribute"):
                raise Unsupported("omp " + s["dir"])
            if "for" in words:
                r.want = 1
                for c in s.get("clauses") or ():
                    if c["k"] == "collapse":
                        r.want = int(self.num(c["n"]).const())
        ks = r.ks if r is not None else None
        par = "parallel" in words
        self.ompdepth += par
        try:
            self.exec(s["body"])
        finally:
            self.ompdepth -= par
            if r is not None:
                r.sync = sync
                r.want = 0
                r.ks = ks
                if ("for" in words or words[0] == "single") and not any(
                        c["k"] == "nowait" for c in s.get("clauses") or ()):
                    r.phase += 1
            for d, old in keep:
                self.frame.env[d] = old

    def race_pass(self, s, words):
        """one execution of the region which only notes its accesses"""
        sn = self.snapshot()
        n0 = len(self.obls)
        names = {}
        env0 = dict(self.frame.env)
        if self.frame.this is not None and is_ref(self.frame.this):
            names.setdefault(self.frame.this.args[0], "this")
        private = set()
        for k, d, t in self.omp_vars(s, "lastprivate", "reduction", "linear"):
            r = self.frame.env.get(d)
            if r is not None and r.kind == "ref":
                private.add(r.args[0])
        b = s["body"]
        while b.get("k") == "Compound" and len(b["s"]) == 1:
            b = b["s"][0]
        if b.get("k") == "For" and b.get("init") and "for" in words:
            e = b["init"].get("e") or b["init"]
            if e.get("k") == "Assign" and e["a"].get("k") == "Ref":
                r = self.frame.env.get(e["a"]["d"])
                if r is not None and r.kind == "ref":
                    private.add(r.args[0])
        self.race = race.Race(next(_cells), private)
        terms.BOUNDS[self.race.tid] = (C0, P(self.models.THREADS) - C1)
        NONNEG.add(self.race.tid)
        out = []
        depth = len(CTX.stack)
        CTX.push()
        st = self.frame, self.quiet, self.model, self.ompdepth
        try:
            CTX.add(P(self.race.tid))
            CTX.add(P(self.models.THREADS) - 1 - P(self.race.tid))
            self.omp_body(s, words, True)
            r, self.race = self.race, None
            for i, x in env0.items():
                if isinstance(x, Node) and x.kind == "ref":
                    names.setdefault(x.args[0], self.vars_name(i))
            accs = self.obls[n0:]
            out = race.obligations(self, r, [o for o in accs if o.kind == "access"], names,
                                   self.where())
            out += [o for o in accs if o.kind != "access"]
        except (Unsupported, RecursionError) as ex:
            r, self.race = self.race, None
            file, line = self.where()
            out = [Obligation(kind="race", what="threads do not meet", file=file, line=line,
                              stack=[], cond=C0, status="undecided", detail=str(ex))]
        finally:
            self.race = None
            self.frame, self.quiet, self.model, self.ompdepth = st
            while len(CTX.stack) > depth:
                CTX.pop()
        self.restore(sn)
        self.obls.extend(out)

    def vars_name(self, i):
        return self.varnames.get(i) or "an object"

    def snapshot(self):
        return (dict(self.st), self.guard, len(self.obls), len(self.frame.rets),
                [len(x) for x in self.frame.loops], dict(self.frame.env), len(self.throws),
                self.line)

    def restore(self, sn):
        st, g, no, nr, nl, env, nt, line = sn
        self.st = dict(st)
        self.guard = g
        del self.obls[no:]
        del self.frame.rets[nr:]
        for x, n in zip(self.frame.loops, nl):
            del x[n:]
        self.frame.env = dict(env)
        del self.throws[nt:]
        self.line = line

    def loop(self, cond, body, inc, s=None):
        if self.race is not None and self.race.want:
            # an arbitrary iteration of a distributed loop
            r, w = self.race, self.race.want
            plain = body

            def body():
                r.want = w - 1
                plain()
            ks = r.ks
            import loops
            try:
                loops.summarise(self, cond, body, inc, s, r)
            finally:
                r.want = 0
                r.ks = ks
            return
        sn = self.snapshot()
        exits = []
        done = False
        CTX.push()
        depth = len(CTX.stack)
        try:
            self.frame.loops.append(exits)
            try:
                tries = 4 if self.raceonly or self.long.get(id(s), 0) >= 2 else UNROLL
                s0 = self.steps
                for it in range(tries):
                    c = cond()
                    if it >= 4 and self.steps - s0 > 20000 and c.const():
                        self.long[id(s)] = self.long.get(id(s), 0) + 1
                        break
                    k = c.const()
                    if k is None:
                        break
                    if k == 0:
                        done = True
                        break
                    n0 = len(exits)
                    body()
                    conts = [x for x in exits[n0:] if x.kind == "continue"]
                    if conts:
                        exits[n0:] = [x for x in exits[n0:] if x.kind != "continue"]
                        outs = conts + ([Exit("n", self.guard, self.st)] if self.alive else [])
                        self.guard, self.st, _ = self.merge_exits(outs)
                    if not self.alive:
                        done = True
                        break
                    inc()
                else:
                    # a loop which keeps turning: do not follow its first iterations again
                    self.long[id(s)] = self.long.get(id(s), 0) + 1
            except Unsupported:
                # retry as a summary (a partially unrolled symbolic loop)
                done = False
                if it == 0 and False:
                    raise
            finally:
                self.frame.loops.pop()
        finally:
            while len(CTX.stack) > depth:
                CTX.pop()
            CTX.pop()
        if done:
            if exits:
                outs = list(exits) + ([Exit("n", self.guard, self.st)] if self.alive else [])
                self.guard, self.st, _ = self.merge_exits(outs)
            g = self.guard
            return
        self.restore(sn)
        import loops
        loops.summarise(self, cond, body, inc, s)


def worksharing(s):
    """does a region share its work out to the threads"""
    if isinstance(s, dict):
        if s.get("k") == "OMP" and ("for" in s["dir"].split() or "section" in s["dir"]):
            return True
        return any(worksharing(v) for v in s.values() if isinstance(v, (dict, list)))
    if isinstance(s, list):
        return any(worksharing(v) for v in s)
    return False


def NE(a, b):
    return C1 - EQ(a, b)

