"""Languages of the regular expressions in the library, decided on their automata.

The pattern of a std::regex is read from the source, turned into a nondeterministic automaton and
compared with a reference for all texts: two automata are equivalent if no reachable pair of their
subset states disagrees.  Where the texts of groups are used, opening and closing a group are
letters, so that equivalence is about what the groups capture, too.
"""
import os
import re
import re._constants as sc
import re._parser as sp

import frontend
from witness import Result

# lines hold no line terminators
LETTERS = [c for c in range(1, 256) if c not in (10, 13)]
DIGITS = set(range(48, 58))
SPACES = {9, 10, 11, 12, 13, 32}
WORDS = DIGITS | set(range(65, 91)) | set(range(97, 123)) | {95}
CATEGORY = {sc.CATEGORY_DIGIT: DIGITS, sc.CATEGORY_SPACE: SPACES, sc.CATEGORY_WORD: WORDS}
NEGATED = {sc.CATEGORY_NOT_DIGIT: DIGITS, sc.CATEGORY_NOT_SPACE: SPACES,
           sc.CATEGORY_NOT_WORD: WORDS}

# file, number in the file, what the pattern is about, reference, whether its groups are used
PATTERNS = [
    ("include/ieompp/io/line.hpp", "blank lines and comments", r"\s*(#.*)?", False),
    ("include/ieompp/io/eigen/sparse.hpp", "dimensions of a matrix",
     r"\s*(\d+)\s*x\s*(\d+)\s*", True),
    ("src/hubbard/include/cli.hpp", "default values of options", r"arg\s+\(=(.+)\)", True),
]


class Unknown(Exception):
    pass


class Automaton:
    def __init__(self, pattern, groups, search):
        self.n = 0
        self.eps = []      # (from, to, None | "begin" | "end")
        self.step = []     # (from, set of letters, to)
        self.groups = groups
        try:
            tree = sp.parse(pattern)
        except re.error as e:
            raise Unknown(str(e))
        self.first = self.state()
        a = self.state()
        if search:
            self.step.append((self.first, set(LETTERS), self.first))
        self.eps.append((self.first, a, None))
        b = self.build(tree, a)
        self.last = self.state()
        self.eps.append((b, self.last, None))
        if search:
            self.step.append((self.last, set(LETTERS), self.last))
        self.out = {}
        for f, t, k in self.eps:
            self.out.setdefault(f, []).append((t, k))
        self.moves = {}
        for f, s, t in self.step:
            self.moves.setdefault(f, []).append((s, t))

    def state(self):
        self.n += 1
        return self.n - 1

    def charset(self, items):
        neg, out = False, set()
        for op, v in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                out.add(v)
            elif op is sc.RANGE:
                out |= set(range(v[0], v[1] + 1))
            elif op is sc.CATEGORY:
                out |= self.category(v)
            else:
                raise Unknown(str(op))
        return (set(LETTERS) - out) if neg else out

    def category(self, v):
        if v in CATEGORY:
            return set(CATEGORY[v])
        if v in NEGATED:
            return set(LETTERS) - NEGATED[v]
        raise Unknown(str(v))

    def letter(self, a, s):
        b = self.state()
        self.step.append((a, s, b))
        return b

    def build(self, items, a):
        for op, v in items:
            if op is sc.LITERAL:
                a = self.letter(a, {v})
            elif op is sc.NOT_LITERAL:
                a = self.letter(a, set(LETTERS) - {v})
            elif op is sc.ANY:
                a = self.letter(a, set(LETTERS))
            elif op is sc.IN:
                a = self.letter(a, self.charset(v))
            elif op is sc.CATEGORY:
                a = self.letter(a, self.category(v))
            elif op is sc.AT:
                b = self.state()
                if v is sc.AT_BEGINNING:
                    self.eps.append((a, b, "begin"))
                elif v is sc.AT_END:
                    self.eps.append((a, b, "end"))
                else:
                    raise Unknown(str(v))
                a = b
            elif op is sc.SUBPATTERN:
                group, plus, minus, sub = v
                if plus or minus:
                    raise Unknown("flags")
                if group is not None and self.groups:
                    a = self.letter(a, {1000 + 2 * group})
                    a = self.build(sub, a)
                    a = self.letter(a, {1001 + 2 * group})
                else:
                    a = self.build(sub, a)
            elif op is sc.BRANCH:
                b = self.state()
                for alt in v[1]:
                    self.eps.append((self.build(alt, a), b, None))
                a = b
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = v
                if lo > 20 or (hi is not sc.MAXREPEAT and hi > 20):
                    raise Unknown("long repetition")
                for _ in range(lo):
                    a = self.build(sub, a)
                if hi is sc.MAXREPEAT:
                    b = self.state()
                    self.eps.append((a, b, None))
                    c = self.build(sub, b)
                    self.eps.append((c, b, None))
                    a = b
                else:
                    end = self.state()
                    self.eps.append((a, end, None))
                    for _ in range(hi - lo):
                        a = self.build(sub, a)
                        self.eps.append((a, end, None))
                    a = end
            else:
                raise Unknown(str(op))
        return a

    def closure(self, states, start, end):
        todo, seen = list(states), set(states)
        while todo:
            for t, k in self.out.get(todo.pop(), ()):
                if t not in seen and (k is None or (k == "begin" and start) or
                                      (k == "end" and end)):
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)

    def accepts(self, states, start):
        return self.last in self.closure(states, start, True)

    def after(self, states, start, c):
        r = set()
        for s in self.closure(states, start, False):
            for letters, t in self.moves.get(s, ()):
                if c in letters:
                    r.add(t)
        return frozenset(r)

    def letters(self):
        return [s for _, s, _ in self.step]


def difference(x, y):
    """a shortest word one accepts and the other does not, or None; marks do not end the start"""
    sets = x.letters() + y.letters()
    extra = set().union(*sets) - set(LETTERS) if sets else set()
    classes = {}
    for c in LETTERS + sorted(extra):
        classes.setdefault(tuple(c in s for s in sets), c)
    # prefer readable representatives
    reps = []
    for sig in classes:
        cands = [c for c in LETTERS + sorted(extra) if tuple(c in s for s in sets) == sig]
        reps.append(next((c for c in cands if 33 <= c < 127), cands[0]))
    start = (frozenset({x.first}), frozenset({y.first}), True)
    todo, seen = [(start, ())], {start}
    while todo:
        (p, q, st), w = todo.pop(0)
        if x.accepts(p, st) != y.accepts(q, st):
            return w, x.accepts(p, st)
        for c in reps:
            n = (x.after(p, st, c), y.after(q, st, c), st and c >= 1000)
            if n not in seen and (n[0] or n[1]):
                seen.add(n)
                todo.append((n, w + (c,)))
    return None


LITERAL = re.compile(r'R"([^()\\\s]{0,16})\((.*?)\)\1"|"((?:[^"\\\n]|\\.)*)"', re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "v": "\v", "f": "\f", "0": "\0", "a": "\a", "b": "\b"}


def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        m = LITERAL.match(s, i)
        if m and (s[i] == '"' or not (i and (s[i - 1].isalnum() or s[i - 1] == "_"))):
            out.append(m.group(0))
            i = m.end()
        elif s[i] == "'":
            m = re.compile(r"'(?:[^'\\\n]|\\.)+'").match(s, i)
            out.append(m.group(0) if m else "'")
            i = m.end() if m else i + 1
        elif s.startswith("//", i):
            i = s.find("\n", i)
            i = len(s) if i < 0 else i
        elif s.startswith("/*", i):
            i = s.find("*/", i)
            i = len(s) if i < 0 else i + 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def text_of(m):
    if m.group(2) is not None:
        return m.group(2)
    return re.sub(r"\\(.)", lambda e: ESC.get(e.group(1), e.group(1)), m.group(3), flags=re.S)


CONSTRUCTED = re.compile(r"\bregex\b(?:\s+\w+)?\s*(?:=\s*(?:std\s*::\s*)?regex\s*)?[({]\s*"
                         r"(?=R?\")")


def patterns_in(path):
    s = strip_comments(open(path).read())
    out = []
    for m in CONSTRUCTED.finditer(s):
        pos, text, n = m.end(), "", 0
        while True:
            while pos < len(s) and s[pos].isspace():
                pos += 1
            l = LITERAL.match(s, pos)
            if not l:
                break
            text += text_of(l)
            pos = l.end()
            n += 1
        whole = pos < len(s) and s[pos] in ")}"
        out.append((text if n and whole else None, s.count("\n", 0, m.start()) + 1))
    return out, s


def regex_languages(thorough):
    res = Result()
    res.rule = ("the pattern of every std::regex of reading lines, options and dimensions is "
                "compared with its reference for all texts, by the product of their automata")
    for path, what, ref, groups in PATTERNS:
        full = os.path.join(frontend.REPO, path)
        res.sites += 1
        res.analysed.append(path)
        try:
            found, s = patterns_in(full)
        except OSError:
            res.undecided.append("%s does not exist" % path)
            continue
        if len(found) != 1 or found[0][0] is None:
            res.undecided.append("%s: %d patterns" % (path, len(found)))
            continue
        pattern, line = found[0]
        uses = set(re.findall(r"\bregex_(match|search|replace|iterator|token_iterator)\b", s))
        flags = re.search(r"\bregex_constants\b|regex::(icase|nosubs|basic|extended|awk|grep|egrep)",
                          s)
        if uses not in ({"match"}, {"search"}) or flags:
            res.undecided.append("%s: how the pattern is used" % path)
            continue
        res.samples.append("%s: %s" % (path, pattern))
        try:
            d = difference(Automaton(pattern, groups, uses == {"search"}),
                           Automaton(ref, groups, False))
        except Unknown as e:
            res.undecided.append("%s: %s" % (path, e))
            continue
        if d is not None:
            w, first = d
            word = "".join(chr(c) if c < 256 else "[" if c % 2 == 0 else "]" for c in w)
            res.violations.append((os.path.basename(path), "%s: the pattern of %s, %s, %s the text "
                                   "%r%s" % (path, what, pattern,
                                             "matches" if first else "does not match", word,
                                             " ([] mark groups)" if groups else ""),
                                   {"file": path, "line": line, "pattern": pattern,
                                    "reference": ref, "text": word}))
    return res
