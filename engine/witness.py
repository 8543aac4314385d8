"""Compile-time witnesses: programs that have to be accepted, or rejected, by the compiler.

A rejected program is paired with an accepted one ("base"), so that a program which does not
compile for an unrelated reason does not count as rejected.  A violation is
  * a rejected program that compiles (the type system lets a forbidden use pass), or
  * an accepted program that does not compile although every name it uses exists (a template of
    the library that cannot be instantiated).
Errors about names or files that do not exist (a renamed function) are undecided.
"""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import frontend

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# the program and the library no longer use the same vocabulary, or the stub headers lack something
RENAMED = re.compile(r"file not found|no member named|no type named|no template named|"
                     r"use of undeclared identifier|unknown type name|no namespace named|"
                     r"is not a class, namespace|expected namespace name|"
                     r"redefinition of|too (few|many) template arguments|is a private member")


class Result:
    def __init__(self):
        self.rule = ("each program of witness/P32.txt is type-checked by clang against the current "
                     "headers; rejected programs must not compile while their accepted counterpart "
                     "does, accepted programs must compile")
        self.sites = 0
        self.samples = []
        self.analysed = []
        self.functions = []
        self.violations = []
        self.undecided = []


def parse(path):
    progs, cur = [], None
    for ln in open(path):
        m = re.match(r"== (accept|reject) (\S+) : (.*)", ln)
        if m:
            cur = {"kind": m.group(1), "name": m.group(2), "text": m.group(3), "base": None,
                   "code": ""}
            progs.append(cur)
        elif cur is not None:
            m = re.match(r"base (\S+)\s*$", ln)
            if m:
                cur["base"] = m.group(1)
            else:
                cur["code"] += ln
    return progs


def compile_one(p):
    fl = [f for f in frontend.flags() if f != "-DNDEBUG"]
    r = subprocess.run([frontend.CLANGXX, *fl, "-fsyntax-only", "-ferror-limit=3", "-x", "c++", "-"],
                       input=p["code"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def compile_witnesses(thorough):
    res = Result()
    progs = parse(os.path.join(HERE, "witness", "P32.txt"))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(compile_one, progs))
    ok = {p["name"]: o for p, o in zip(progs, outs)}
    for p, (good, out) in zip(progs, outs):
        res.sites += 1
        res.analysed.append("%s %s" % (p["kind"], p["name"]))
        res.samples.append("%s: %s" % (p["kind"], p["text"]))
        err = [ln for ln in out.splitlines() if "error:" in ln]
        first = err[0] if err else ""
        if p["kind"] == "accept":
            if good:
                continue
            if not err or any(RENAMED.search(e) for e in err):
                res.undecided.append("%s: %s" % (p["name"], first[:200]))
            else:
                res.violations.append((p["name"], p["text"] + ": the program no longer compiles",
                                       {"program": p["code"], "compiler": out[:1500]}))
        else:
            base = ok.get(p["base"]) if p["base"] else None
            if base is not None and not base[0]:
                res.undecided.append("%s: its counterpart %s does not compile"
                                     % (p["name"], p["base"]))
            elif good:
                res.violations.append((p["name"], p["text"] + ": the forbidden program compiles",
                                       {"program": p["code"]}))
            elif any("file not found" in e for e in err):
                res.undecided.append("%s: %s" % (p["name"], first[:200]))
    return res


DEFINITION = re.compile(r"^(/\S+?):(\d+):\d+: warning: (.*) \[misc-definitions-in-headers\]")


def header_files():
    root = os.path.join(frontend.REPO, "include")
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith(".hpp")]
    return sorted(out)


def one_header(h):
    """(errors when the header is included first and alone, definitions clang-tidy objects to)"""
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".cpp") as f:
        f.write('#include "%s"\n' % h)
        f.flush()
        fl = [x for x in frontend.flags() if x != "-DNDEBUG"]
        r = subprocess.run(["clang-tidy", "--quiet", "--config={}",
                            "-checks=-*,misc-definitions-in-headers",
                            "--header-filter=^" + re.escape(frontend.REPO) + "/include/.*", f.name,
                            "--", *fl],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    errs = [ln for ln in r.stdout.splitlines() if re.search(r": (fatal )?error: ", ln)]
    defs = set()
    for ln in r.stdout.splitlines():
        m = DEFINITION.match(ln)
        if m:
            defs.add((os.path.relpath(m.group(1), frontend.REPO), m.group(3)))
    return errs, defs


STD_PRELUDE = "".join("#include <%s>\n" % x for x in (
    "algorithm array cassert chrono cmath complex cstddef cstdint cstdio cstdlib cstring ctime deque "
    "exception fstream functional initializer_list iomanip ios iosfwd iostream istream iterator "
    "limits list map memory numeric ostream random ratio regex set sstream stdexcept string tuple "
    "type_traits typeinfo unordered_map unordered_set utility valarray vector").split())


def library_prelude():
    """the library headers which compile by themselves, as something that supplies every name"""
    return STD_PRELUDE


def standalone_headers(thorough):
    res = Result()
    res.rule = ("every header of include/ieompp is type-checked as the only header of a program, and "
                "clang-tidy's misc-definitions-in-headers looks for definitions of functions and "
                "variables in it that two translation units could not share")
    hs = header_files()
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one_header, hs))
    seen = set()
    for h, (errs, defs) in zip(hs, outs):
        res.sites += 2
        res.analysed.append(h)
        res.samples.append(h)
        for f, text in sorted(defs):
            if (f, text) not in seen:
                seen.add((f, text))
                res.violations.append((os.path.basename(f) + "-" + text.split("'")[1], "%s: %s"
                                       % (f, text), {"file": f, "diagnostic": text}))
        if not errs:
            continue
        where = errs[0].split(": ", 1)[0]
        missing = re.search(r"'(ieompp/[^']*)' file not found", errs[0])
        if missing:
            # name the file that has the wrong #include, once
            f = os.path.relpath(os.path.realpath(where.split(":")[0]), frontend.REPO)
            key = "missing-%s" % (f.replace("include/ieompp/", "") + "-" + missing.group(1))
            if key not in seen:
                seen.add(key)
                res.violations.append((key, "%s includes %s, which does not exist"
                                       % (f, missing.group(1)), {"errors": errs[:3]}))
            continue
        good, _ = compile_one({"code": library_prelude() + '#include "%s"\n' % h})
        if good:
            res.violations.append(("alone-" + h.replace("ieompp/", ""),
                                   "include/%s compiles only after headers it does not include: %s"
                                   % (h, errs[0].split("error: ")[-1]), {"errors": errs[:3]}))
        else:
            res.undecided.append("include/%s does not compile: %s" % (h, errs[0][-200:]))
    return res
