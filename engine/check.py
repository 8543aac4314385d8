"""check.py <property> : decides one property on the current tree.

exit 0  no violation found (prints what was proved / left undecided)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the check itself could not run (a driver which does not compile is UNDECIDED)
"""
import json
import multiprocessing as mp
import os
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend
from frontend import HERE, REPO
from registry import PROPS

KNOWN = os.path.join(HERE, "known-findings.txt")


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def slug(s):
    return re.sub(r"[^A-Za-z0-9]+", "-", s).strip("-")[:90]


def rel(f):
    for p in (REPO + "/", HERE + "/"):
        if f.startswith(p):
            return f[len(p):]
    return f


PROGS = {}
INTERP = {}
END = [float("inf")]        # when the whole check gives up


def root_name(drv, root):
    return PROGS[drv]["functions"][str(root)]["name"]


def load(drv):
    try:
        return drv, frontend.dump(os.path.join(HERE, "drivers", drv))
    except frontend.FrontendError as e:
        return drv, str(e)


def calls(o, out, omp):
    if isinstance(o, dict):
        f = o.get("f")
        if isinstance(f, int):
            out.add(f)
        if o.get("k") == "OMP":
            omp.append(o.get("l"))
        for v in o.values():
            if isinstance(v, (dict, list)):
                calls(v, out, omp)
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                calls(v, out, omp)


def parallel_roots(prog):
    """obligation functions from which an OpenMP region is reached"""
    fns = {int(k): f for k, f in prog["functions"].items()}
    edges, has = {}, set()
    for k, f in fns.items():
        e, omp = set(), []
        calls([f.get("body"), f.get("inits"), f.get("params")], e, omp)
        edges[k] = e
        if omp:
            has.add(k)
    if not has:
        return set()
    out = set()
    for r in prog["roots"]:
        seen, todo = set(), [r]
        while todo:
            x = todo.pop()
            if x in seen or x not in edges:
                continue
            seen.add(x)
            todo += edges[x]
        if seen & has:
            out.add(r)
    return out


def task(a):
    """one obligation function: a plain dictionary"""
    drv, root, seed, thorough, raceonly = a
    import interp
    import runner

    left = END[0] - time.time()
    if left < 2:
        return {"root": root_name(drv, root), "driver": drv, "error": "out of time", "secs": 0,
                "steps": 0, "visited": [], "notes": [], "obls": [], "regions": []}

    def go():
        prog = PROGS[drv]
        if drv not in INTERP:
            INTERP.clear()
            INTERP[drv] = interp.Interp(prog)
        INTERP[drv].raceonly = raceonly
        INTERP[drv].omps.clear()
        kw = dict(seed=seed, prove_s=100 if thorough else 25, refute_s=40 if thorough else 4,
                  want=20000 if thorough else 3000, interp_s=200 if thorough else 60,
                  total_s=500 if thorough else 150)
        kw["interp_s"] = min(kw["interp_s"], left)
        kw["total_s"] = min(kw["total_s"], left)
        r = runner.run_root(prog, INTERP[drv], root, **kw)
        d = {"root": r.name, "driver": drv, "error": r.error, "secs": round(r.secs, 2),
             "steps": r.steps, "visited": sorted("%s %s:%s" % (q, rel(f), l)
                                                 for q, f, l in r.visited
                                                 if f.startswith(REPO + "/")),
             "notes": r.notes, "obls": [],
             "regions": sorted((rel(os.path.normpath(f)), l, d)
                               for (f, l), d in INTERP[drv].omps.items())}
        for ob, res in r.results:
            o = {"kind": ob.kind, "what": ob.what, "file": rel(ob.file), "line": ob.line,
                 "status": res.status, "why": res.why,
                 "stack": ["%s %s:%s" % (q, rel(f), l) for q, f, l in (ob.stack or ())]}
            if res.status != "proved":
                o["forms"] = res.forms
                if res.witness:
                    o["witness"] = res.witness["witness"]
                    o["values"] = [res.witness["left"], res.witness["right"]]
            d["obls"].append(o)
        return d
    return runner.in_big_stack(go)


def run_engine(prop, seed, thorough):
    drivers = []
    raceonly = bool(PROPS[prop].get("race"))
    if raceonly:
        every = {d if isinstance(d, str) else d[0] for q in PROPS.values()
                 for d in q.get("drivers", ())}
        drivers = [(d, None) for d in sorted(every)]
    for d in () if raceonly else PROPS[prop].get("drivers", ()):
        drivers.append(d if isinstance(d, tuple) else (d, None))
    if not drivers:
        return []
    frontend.tool()
    from multiprocessing.pool import ThreadPool
    with ThreadPool(8) as tp:
        loaded = tp.map(load, sorted({d for d, _ in drivers}))
    out = []
    for d, prog in loaded:
        if isinstance(prog, str):
            out.append({"fatal": prog, "driver": d})
        else:
            PROGS[d] = prog
    jobs = []
    for d, only in drivers:
        if d not in PROGS:
            continue
        fns = PROGS[d]["functions"]
        fns = {int(k): f for k, f in fns.items()}
        reach = parallel_roots(PROGS[d]) if raceonly else None
        for r in PROGS[d]["roots"]:
            if raceonly and r not in reach:
                continue
            n = fns[r]["name"]
            if n.startswith("ob_") and not (only and not any(o in n for o in only)):
                jobs.append((d, r, seed, thorough, raceonly))
    if jobs:
        with mp.get_context("fork").Pool(min(len(jobs), 8)) as pool:
            out += pool.map(task, jobs, 1)
    return out


def omp_sites():
    out = []
    for top in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h")):
                    p = os.path.join(d, f)
                    for i, line in enumerate(open(p, errors="replace"), 1):
                        if re.match(r"\s*#\s*pragma\s+omp\b(?!\s+(barrier|threadprivate|declare))",
                                    line):
                            out.append((rel(p), i))
    return sorted(out)


def main():
    prop = sys.argv[1]
    tier = "thorough" if ("--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough") \
        else "quick"
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    END[0] = t0 + (3000 if thorough else 450)
    known = load_known()
    violations, undecided, findings = [], [], []
    obligations = discharged = 0
    visited = set()
    roots = {}
    fatal = []
    kinds = {}
    lint_info = {}
    regions = set()

    def report(key, text, detail):
        k = (prop, key)
        if k in known:
            findings.append((key, known[k]))
        else:
            violations.append((key, text, detail))

    for r in run_engine(prop, seed, thorough):
        if "fatal" in r:
            fatal.append("%s: %s" % (r["driver"], r["fatal"]))
            continue
        visited |= set(r["visited"])
        regions |= {tuple(x) for x in r["regions"]}
        n = len(r["obls"])
        pr = sum(1 for o in r["obls"] if o["status"] == "proved")
        roots[r["driver"] + ":" + r["root"]] = {"obligations": n, "discharged": pr,
                                                "seconds": r["secs"]}
        obligations += n
        discharged += pr
        if r["error"]:
            obligations += 1
            undecided.append("%s: %s" % (r["root"], r["error"]))
        for o in r["obls"]:
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
            where = "%s:%s" % (o["file"], o["line"])
            if o["status"] == "refuted":
                key = slug(r["root"] + "-" + o["what"])
                report(key, "%s [%s] %s (in %s)" % (where, o["kind"], o["what"], r["root"]), o)
            elif o["status"] != "proved":
                undecided.append("%s: [%s] %s at %s %s" % (r["root"], o["kind"], o["what"], where,
                                                           o["why"] or ""))
    if spec.get("race"):
        sites = omp_sites()
        lint_info["regions"] = {"rule": "every OpenMP directive of the sources is executed by some "
                                "obligation function", "sites": len(sites),
                                "examples": ["%s:%s" % x for x in sites][:40],
                                "analysed": sorted("%s:%s %s" % x for x in regions)}
        have = {(f, l) for f, l, _ in regions}
        for f, l in sites:
            if (f, l) not in have:
                obligations += 1
                undecided.append("parallel region %s:%s is reached by no obligation function"
                                 % (f, l))
    for name in spec.get("lints", ()):
        import patterns
        import witness
        try:
            res = getattr(patterns if hasattr(patterns, name) else witness, name)(thorough)
        except frontend.FrontendError as e:
            fatal.append(str(e))
            continue
        lint_info[name] = {"rule": res.rule, "sites": res.sites, "examples": res.samples[:6],
                           "analysed": res.analysed}
        obligations += res.sites
        discharged += res.sites - len(res.violations) - len(res.undecided)
        visited |= set(res.functions)
        for key, text, detail in res.violations:
            report(slug(name + "-" + key), text, detail)
        undecided += ["%s: %s" % (name, u) for u in res.undecided]
    wall = time.time() - t0
    for f in fatal:
        # the obligations of this driver cannot even be stated for this tree
        obligations += 1
        undecided.append(f)
    if obligations == 0:
        print("ERROR no obligation was generated for", prop)
        sys.exit(2)
    ev = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = {"obligations": obligations, "discharged": discharged,
           "checker_cmd": "python3 engine/check.py " + prop,
           "trusted_base": ["clang 18 front end (typed syntax tree)", "tool/astdump.cpp",
                            "engine/*.py (abstract interpreter, value-graph normal form, models of "
                            "the standard library)", "drivers/*.cpp (statements of the "
                            "obligations)"],
           "rule": spec["rule"],
           "functions_analysed": len(visited),
           "functions": sorted(visited)[:400],
           "obligation_kinds": kinds,
           "roots": roots}
    if lint_info:
        cov["queries"] = lint_info
    if undecided:
        cov["undecided"] = undecided[:100]
    doc = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "proof"),
           "coverage": cov, "wall_s": round(wall, 2),
           "assumptions": spec.get("assume", []) + COMMON,
           "violations": [v[1] for v in violations]}
    if findings:
        doc["coverage"]["known_findings"] = [k for k, _ in findings]
    if spec.get("level", "proof") == "other":
        cov["explanation"] = spec["rule"]
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    print("%s %s: %d obligations, %d discharged, %d functions analysed, %.1fs"
          % (prop, spec["title"], obligations, discharged, len(visited), wall))
    for u in undecided[:20]:
        print("UNDECIDED", u)
    for k, w in sorted(set(findings)):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if violations:
        path = os.path.join(ev, "replay-%s.json" % prop)
        with open(path, "w") as f:
            json.dump([{"key": k, "violation": t, "detail": d} for k, t, d in violations], f,
                      indent=1, default=str)
        for k, t, d in violations[:8]:
            print("  ", t)
            if isinstance(d, dict) and d.get("witness"):
                print("      witness", json.dumps(d["witness"])[:400], "values",
                      str(d.get("values"))[:300])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        sys.exit(1)
    sys.exit(0)


COMMON = [
    "unsigned quantities stay below 2^64 (no wrap-around of sizes and sums)",
    "floating point arithmetic is exact real arithmetic",
    "element types used in the obligations are representative of the templates' parameters",
]


if __name__ == "__main__":
    try:
        main()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
