"""Runs the obligation functions of one driver file through the interpreter."""
import os
import sys
import time
import traceback
from terms import *
import terms
from values import *
import values
import interp
import loops
import models
import frontend
import prove

sys.setrecursionlimit(20000)
try:
    import threading
    threading.stack_size(512 * 1024 * 1024)
except Exception:
    pass


class RootReport:
    def __init__(self, name, file, line):
        self.name, self.file, self.line = name, file, line
        self.results = []        # (Obligation, Result)
        self.error = None
        self.visited = set()
        self.notes = []
        self.secs = 0.0
        self.steps = 0


def bind_params(I, fr, fn):
    for p in fn["params"]:
        t = values.strip_type(p["t"])
        v = mk_symval(t, ("var", p["n"]))
        fr.env[p["id"]] = I.alloc(v, t)


def run_root(prog, I, fid, seed, prove_s, refute_s, want, interp_s, total_s=1000):
    fn = I.fns[fid]
    rep = RootReport(fn["name"], fn["file"], fn["line"])
    t0 = time.time()
    sv = prove.Saved()
    CTX.facts[:] = []
    CTX.conds[:] = []
    CTX.lits = {}
    CTX.stack[:] = []
    CTX.version = next(CTX._ver)
    CTX.cache.clear()
    I.st = {}
    I.guard = C1
    I.frame = None
    I.stack = []
    I.obls = []
    I.quiet = 0
    I.steps = 0
    I.long = {}
    I.throws = []
    I.notes = []
    I.visited = set()
    I.statics = {}
    I.loopctx = []
    I.deadline = time.time() + interp_s
    terms.LIMIT[0] = I.deadline
    try:
        fr = interp.Frame(fn)
        CTX.push()
        bind_params(I, fr, fn)
        I.run_frame(fr, fn)
    except Unsupported as e:
        rep.error = "unsupported: %s (at %s:%s)" % (e, *I.where())
        if os.environ.get("VDEBUG"):
            traceback.print_exc()
    except (interp.Budget, Timeout) as e:
        rep.error = "budget: %s (at %s:%s)" % (e, *I.where())
    except RecursionError:
        rep.error = "recursion limit (at %s:%s)" % I.where()
    except Exception as e:
        rep.error = "internal: %s %s (at %s:%s)" % (type(e).__name__, e, *I.where())
        if os.environ.get("VDEBUG"):
            traceback.print_exc()
    finally:
        terms.LIMIT[0] = None
        sv.back()
    rep.visited = set(I.visited)
    rep.notes = list(I.notes)
    rep.steps = I.steps
    end = time.time() + total_s
    for ob in I.obls:
        left = end - time.time()
        if left < 0.2:
            rep.results.append((ob, prove.Result("undecided", "out of time")))
            continue
        try:
            r = prove.decide(ob, seed, min(prove_s, max(1, left / 5)),
                             min(refute_s, max(1, left / 10)), want)
        except Unsupported as e:
            r = prove.Result("undecided", "unsupported: %s" % e)
        except Exception as e:
            r = prove.Result("undecided", "internal: %s %s" % (type(e).__name__, e))
            if os.environ.get("VDEBUG"):
                traceback.print_exc()
        rep.results.append((ob, r))
    # a machine under load may have stopped the search early
    if not any(r.status == "refuted" for _, r in rep.results):
        for i, (ob, r) in enumerate(rep.results):
            left = end - time.time()
            if r.status != "undecided" or ob.status == "undecided" or left < 10:
                continue
            x = prove.again(ob, seed + 2, min(refute_s * 4, left / 4), want * 4)
            if x:
                rep.results[i] = (ob, x)
                break
    rep.secs = time.time() - t0
    return rep


def run_driver(src, seed=1, prove_s=20, refute_s=4, want=3000, interp_s=60, only=None, extra=(),
               raceonly=False):
    prog = frontend.dump(src, extra)
    I = interp.Interp(prog)
    I.raceonly = raceonly
    out = []
    for r in prog["roots"]:
        fn = I.fns[r]
        if not fn["name"].startswith("ob_"):
            continue
        if only and not any(o in fn["name"] for o in only):
            continue
        out.append(run_root(prog, I, r, seed, prove_s, refute_s, want, interp_s))
    return prog, out


def in_big_stack(f):
    """run f in a thread with a large stack"""
    box = []

    def g():
        try:
            box.append((True, f()))
        except BaseException as e:
            box.append((False, e))
    t = threading.Thread(target=g)
    t.start()
    t.join()
    ok, v = box[0]
    if not ok:
        raise v
    return v


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("src")
    ap.add_argument("-k", action="append")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--prove", type=float, default=20)
    ap.add_argument("--refute", type=float, default=4)
    ap.add_argument("--race", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prog, reps = run_driver(a.src, prove_s=a.prove, refute_s=a.refute, only=a.k,
                            raceonly=a.race)
    for r in reps:
        cnt = {}
        for ob, res in r.results:
            cnt[res.status] = cnt.get(res.status, 0) + 1
        print("%-45s %5.2fs steps=%d %s %s" % (r.name, r.secs, r.steps, cnt, r.error or ""))
        for n in r.notes:
            print("    note:", n)
        for ob, res in r.results:
            if res.status != "proved" or a.v:
                print("    %s [%s] %s  %s:%s  %s" % (res.status.upper(), ob.kind, ob.what, ob.file,
                                                     ob.line, res.why))
                if res.forms:
                    print("       left :", res.forms[0])
                    print("       right:", res.forms[1])
                if res.witness:
                    print("       witness:", res.witness["witness"])
                    print("       values :", res.witness["left"], "vs", res.witness["right"])
                if a.v or res.status == "undecided":
                    for c in ob.conds or ():
                        print("       cond:", show(c)[:300])
                    for f, s in (ob.facts or ())[:12]:
                        print("       fact:", show(f)[:200], ">" if s else ">=", 0)
    print("total %.2fs" % (time.time() - t0))


if __name__ == "__main__":
    in_big_stack(main)
