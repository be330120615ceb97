"""Generated programs over the control constructs, their text, and an interpreter of the documented semantics.

A program is a tree:
  ("seq", [(op, pipe), ...])      op in "", "&", "&&", "||"; only the last pipe may end with an IF or FOR
  pipe = [elem, ...]
  elem = ("call", n, status) | ("echo", n) | ("set", v, n) | ("unset", v) | ("fail", n) | ("rem",) | ("find",)
       | ("block", [seq, ...]) | ("if", cond, then, else|None) | ("for", letter, [item...], body)
       | ("redir", file, append, elem)
Every ("call"...) prints its number and the error level it sees, and returns its status.
"""

TAIL = """
goto :eof
:s
echo %1=%errorlevel%
exit /b %2
"""


class Gen:
    def __init__(self, r, depth=3, pipes=True, loops=True, redirs=True, multiline=True, probe=False):
        self.r, self.depth, self.pipes, self.loops, self.redirs, self.multiline = r, depth, pipes, loops, redirs, multiline
        self.n = 0
        self.nfile = 0
        self.left = 0          # inside the left side of a pipe
        self.letters = []
        self.probe = probe
        self.oneline = 0
        self.busy = set()

    def num(self):
        self.n += 1
        return self.n

    def status(self):
        return self.r.choice([0, 0, 0, 1, 2, 3, 5, 255, -1, 7, self.r.choice([256, 512, -256, 65536, 1000, -2147483648, 2147483647])])

    def simple(self):
        r = self.r
        k = r.random()
        if k < .58:
            lab = "%d" % self.num()
            if self.letters and r.random() < .6:
                lab += "".join("%%%%%s" % x for x in r.sample(self.letters, r.randint(1, len(self.letters))))
            return ("call", lab, self.status())
        if k < .74:
            return ("echo", "e%d" % self.num())
        if k < .83:
            return ("set", r.choice("vwxy"), str(self.num()))
        if k < .88:
            return ("unset", r.choice("vwxy"))
        if k < .94:
            return ("fail", self.num())
        if k < .97 and self.probe:
            return ("probe", r.choice([0, 0, 1, 3, 200]))
        return ("rem",)

    def cond(self):
        r = self.r
        k = r.random()
        if k < .4:
            return ("const", r.random() < .5)
        if k < .6:
            return ("def", r.choice("vwxy"), r.random() < .3)
        if k < .85:
            return ("el", r.choice(["EQU", "NEQ", "GTR", "LSS", "GEQ", "LEQ"]), r.choice([0, 0, 1, 2, 3, 5, 255, -1, 256, 65536]))
        if k < .95:
            return ("elold", r.choice([0, 0, 1, 2, 3]), r.random() < .3)
        return ("cmp", r.choice("vwxy"), str(r.randint(1, max(1, self.n))), r.random() < .4)

    def block(self, d):
        self.oneline += 1
        n = self.r.choice([1, 1, 2, 2, 3])
        if not self.multiline:
            n = 1
        b = ("block", [self.seq(d - 1) for _ in range(n)])
        self.oneline -= 1
        return b

    def elem(self, d, last, inpipe=False):
        """last: nothing follows on the line, IF and FOR may be used."""
        r = self.r
        k = r.random()
        if d > 0 and last and k < .3:
            return self.if_(d)
        if d > 0 and last and self.loops and k < .42:
            return self.for_(d)
        if d > 0 and k < .65:
            e = self.block(d)
        else:
            e = self.simple()
        if self.redirs and not inpipe and not self.left and r.random() < .12 and e[0] != "rem":
            # a file that is not open already (nothing inside e redirects to it, and nothing around e does)
            used = set(files_of(e)) | self.busy
            free = [f for f in range(self.nfile) if f not in used]
            app = bool(free) and r.random() < .4
            if app:
                f = r.choice(free)
            else:
                f = self.nfile
                self.nfile += 1
            e = ("redir", f, app, e)
        return e

    def if_(self, d):
        r = self.r
        c = self.cond()
        if r.random() < .55:
            then = self.block(d)
            els = self.seq(d - 1) if r.random() < .75 else None
            return ("if", c, ("seq", [("", [then])]), els)
        return ("if", c, self.seq(d - 1), None)

    def for_(self, d):
        r = self.r
        free = [x for x in "ijkLM" if x not in self.letters]
        if not free:
            return self.if_(d)
        x = r.choice(free)
        items = ["".join(r.choice("abcd") for _ in range(r.randint(1, 3))) for _ in range(r.choice([0, 1, 2, 2, 3]))]
        self.letters.append(x)
        body = self.seq(d - 1)
        self.letters.pop()
        return ("for", x, items, body)

    def pipe(self, d, last):
        r = self.r
        if self.pipes and d > 0 and r.random() < .18:
            n = r.choice([2, 2, 2, 3, 4])
            out = []
            for i in range(n - 1):
                self.left += 1
                if i == 0 or r.random() < .4:
                    out.append(self.block(d) if r.random() < .6 else self.simple())
                else:
                    out.append(("find",))
                self.left -= 1
            k = r.random()
            if k < .6:
                out.append(("find",))
            elif k < .8:
                out.append(("block", [("seq", [("", [self.simple()]), (r.choice(["&", "&&", "||"]), [("find",)]),
                                               (r.choice(["&", "&&", "||"]), [self.simple()])])]))
            elif last and k < .9:
                out.append(("if", self.cond(), ("seq", [("", [("find",)])]), None))
            else:
                out.append(self.simple())
            return out
        return [self.elem(d, last)]

    def seq(self, d):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4])
        out = []
        for i in range(n):
            out.append(("" if i == 0 else r.choice(["&", "&", "&&", "||", "&&", "||"]), self.pipe(d, i == n - 1)))
        return ("seq", out)


def files_of(e):
    if isinstance(e, (tuple, list)):
        if len(e) == 4 and e[0] == "redir":
            yield e[1]
        for x in e:
            yield from files_of(x)


def variants(e):
    """Smaller programs (for shrinking): every list shortened by one, every node replaced by a child of its sort."""
    if isinstance(e, list):
        for i in range(len(e)):
            if len(e) > 1:
                rest = e[:i] + e[i + 1:]
                if rest and isinstance(rest[0], tuple) and len(rest[0]) == 2 and isinstance(rest[0][1], list) \
                        and rest[0][0] in ("&", "&&", "||"):
                    rest = [("", rest[0][1])] + rest[1:]
                yield rest
            for v in variants(e[i]):
                yield e[:i] + [v] + e[i + 1:]
        return
    if not isinstance(e, tuple):
        return
    k = e[0]
    if k == "redir":
        yield e[3]
    if k in ("block", "if", "for"):
        yield ("echo", "z")
    if k == "block" and len(e[1]) == 1 and len(e[1][0][1]) == 1 and len(e[1][0][1][0][1]) == 1:
        yield e[1][0][1][0][1][0]
    if k == "if" and e[3] is not None:
        yield e[:3] + (None,)
    if k == "if":
        yield ("block", [e[2]])
        if e[1] != ("const", True):
            yield (k, ("const", True)) + e[2:]
            yield (k, ("const", False)) + e[2:]
    if k == "for" and len(e[2]) > 1:
        yield e[:2] + (e[2][:1],) + e[3:]
    if k == "call" and e[2]:
        yield e[:2] + (0,)
    for i, x in enumerate(e):
        if isinstance(x, (tuple, list)) and not (k == "if" and i == 1) and not (k == "for" and i == 2):
            for v in variants(x):
                yield e[:i] + (v,) + e[i + 1:]


def ok(e):
    """Is the (shrunk) program one the generator could have made?"""
    if isinstance(e, list):
        return all(ok(x) for x in e)
    k = e[0]
    if k == "seq":
        for i, (op, p) in enumerate(e[1]):
            for j, x in enumerate(p):
                if x[0] in ("if", "for") and (i < len(e[1]) - 1 or j < len(p) - 1):
                    return False
                if x[0] == "for" and len(p) > 1:
                    return False
                if not ok(x):
                    return False
        return bool(e[1])
    if k == "if":
        if e[3] is not None and not (len(e[2][1]) == 1 and len(e[2][1][0][1]) == 1 and e[2][1][0][1][0][0] == "block"):
            return False
        return ok(e[2]) and (e[3] is None or ok(e[3]))
    if k == "for":
        return ok(e[3])
    if k == "redir":
        return e[3][0] not in ("if", "for") and ok(e[3])
    if k == "block":
        return bool(e[1]) and ok(e[1])
    return True


class Text:
    def __init__(self, r):
        self.r = r

    def sp(self):
        return self.r.choice(["", " ", " ", "  "])

    def seq(self, s, one=False):
        o = ""
        for op, p in s[1]:
            if op:
                o += self.r.choice([" ", " ", "  ", "\t"]) + op + self.sp()
            o += (" " + "|" + " ").join(self.elem(e, one) for e in p)
        return o

    def elem(self, e, one=False):
        r = self.r
        k = e[0]
        if k == "call":
            return "call :s %s %d" % (e[1], e[2])
        if k == "echo":
            return "echo %s=!errorlevel!" % e[1]
        if k == "set":
            return r.choice(["set \"%s=%s\"", "SET \"%s=%s\""]) % (e[1], e[2])
        if k == "unset":
            return "set \"%s=\"" % e[1]
        if k == "fail":
            return "cd nonexist%d" % e[1]
        if k == "rem":
            return "rem"
        if k == "probe":
            return '"%%EXITP%%" %d' % e[1]
        if k == "find":
            return "find \"=\""
        if k == "block":
            return self.block(e)
        if k == "redir":
            return "%s %s%s" % (self.elem(e[3]), (">>" if e[2] else ">") + self.sp(), "f%d.txt" % e[1])
        if k == "if":
            c = e[1]
            if c[0] == "const":
                t = "1==1" if c[1] else "1==2"
                if r.random() < .2:
                    t = "not " + ("1==2" if c[1] else "1==1")
            elif c[0] == "def":
                t = ("not " if c[2] else "") + "defined " + c[1]
            elif c[0] == "el":
                t = "!errorlevel! %s %d" % (r.choice([c[1], c[1].lower()]), c[2])
            elif c[0] == "elold":
                t = ("not " if c[2] else "") + "errorlevel %d" % c[1]
            else:
                t = ("not " if c[3] else "") + '"!%s!"=="%s"' % (c[1], c[2])
            o = r.choice(["if ", "IF "]) + t + " " + self.seq(e[2])
            if e[3] is not None:
                o += r.choice([" else ", " ELSE ", " Else "]) + self.seq(e[3])
            return o
        if k == "for":
            return "for %%%%%s in (%s) do %s" % (e[1], r.choice([" ", ", "]).join(e[2]), self.seq(e[3]))
        raise ValueError(k)

    def block(self, e):
        r = self.r
        if len(e[1]) == 1 and r.random() < .7:
            return "(" + self.sp() + self.seq(e[1][0]) + self.sp() + ")"
        o = "("
        for i, s in enumerate(e[1]):
            o += ("\n" + r.choice(["", "  ", "\t"]) if i or r.random() < .7 else self.sp()) + self.seq(s)
            if r.random() < .1:
                o += "\n"
        return o + r.choice(["\n)", "\n  )", ")"])


class World:
    def __init__(self):
        self.el = 0
        self.vars = {}
        self.files = {}
        self.loop = {}
        self.steps = 0
        self.cov = {}


class Interp:
    """Executes a program; output goes to lists."""

    def __init__(self, world):
        self.w = world

    def run(self, w, s, out, inp):
        """Run a seq in world w with output list out and input list inp (consumed by find)."""
        for op, p in s[1]:
            w.steps += 1
            skip = (op == "&&" and w.el != 0) or (op == "||" and w.el == 0)
            key = (op or "first") + ("-skipped" if skip else "-run")
            w.cov[key] = w.cov.get(key, 0) + 1
            if skip:
                continue
            cur = inp
            for e in p[:-1]:
                w2 = World()
                w2.el, w2.vars, w2.files, w2.loop, w2.cov = w.el, dict(w.vars), w.files, dict(w.loop), w.cov
                o2 = []
                self.elem(w2, e, o2, cur)
                cur = o2
                w.cov["piped"] = w.cov.get("piped", 0) + 1
            self.elem(w, p[-1], out, cur)

    def elem(self, w, e, out, inp):
        k = e[0]
        w.cov[k] = w.cov.get(k, 0) + 1
        if k == "call":
            lab = e[1]
            for x, v in w.loop.items():
                lab = lab.replace("%%" + x, v)
            out.append("%s=%d" % (lab, w.el))
            w.el = e[2]
        elif k == "echo":
            out.append("%s=%d" % (e[1], w.el))
            w.el = 0
        elif k == "set":
            w.vars[e[1]] = e[2]
            w.el = 0
        elif k == "unset":
            w.vars.pop(e[1], None)
            w.el = 0
        elif k == "fail":
            w.el = 2
        elif k == "probe":
            w.el = e[1]
        elif k == "rem":
            w.el = 0
        elif k == "find":
            got = [l for l in inp if "=" in l]
            del inp[:]
            out.extend(got)
            w.el = 0 if got else 1
        elif k == "block":
            for s in e[1]:
                self.run(w, s, out, inp)
        elif k == "redir":
            o = []
            if not e[2]:
                w.files[e[1]] = []
            self.elem(w, e[3], o, inp)
            w.files.setdefault(e[1], []).extend(o)
        elif k == "if":
            c = e[1]
            if c[0] == "const":
                v = c[1]
            elif c[0] == "def":
                v = (c[1] in w.vars) != c[2]
            elif c[0] == "el":
                v = {"EQU": w.el == c[2], "NEQ": w.el != c[2], "GTR": w.el > c[2], "LSS": w.el < c[2],
                     "GEQ": w.el >= c[2], "LEQ": w.el <= c[2]}[c[1]]
            elif c[0] == "elold":
                v = (w.el >= c[1]) != c[2]
            else:
                v = (w.vars.get(c[1], "") == c[2]) != c[3]
            w.cov["if-true" if v else "if-false"] = w.cov.get("if-true" if v else "if-false", 0) + 1
            if v:
                self.run(w, e[2], out, inp)
            elif e[3] is not None:
                self.run(w, e[3], out, inp)
        elif k == "for":
            for it in e[2]:
                w.loop[e[1]] = it
                self.run(w, e[3], out, inp)
            w.loop.pop(e[1], None)
