"""P06: the branch every generated IF takes, against an independent evaluator of the documented tests."""
import collections, fnmatch, re
from vt.check import Check, main
from vt import build, run, bat

KEY = {"not", "/i", "exist", "defined", "errorlevel", "and", "or", "[", "]", "/?", "else"}
OPS = ["EQU", "NEQ", "LSS", "LEQ", "GTR", "GEQ"]
INT = re.compile(r"[+-]?(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)\Z")
FLT = re.compile(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")
NUMERIC = re.compile(r"[\s;,]*[+-]?([0-9]|\.[0-9])")
FILES = ["f.txt", "g.txt", "abc", "d e.dat", "sub/x.txt", "UPPER.TXT", "été.txt"]


def num(s):
    """The number a string represents, None if none, 'undecided' if the manual does not tell."""
    if INT.match(s):
        d = s.lstrip("+-")
        b = 16 if d[:2].lower() == "0x" else 8 if d[0] == "0" and len(d) > 1 else 10
        v = int(d, b) * (-1 if s[0] == "-" else 1)
        if -2 ** 31 <= v < 2 ** 31:
            return float(v)
        return float(s) if b == 10 else "undecided"
    if FLT.match(s):
        try:
            return float(s)
        except OverflowError:
            return "undecided"
    if NUMERIC.match(s) and re.match(r"[\s;,]*[+-]?(0[xX]?[0-9a-fA-F]*\.?[0-9a-fA-F]*|[0-9.]+([eE][+-]?[0-9]*)?)[\s;,]*\Z", s):
        return "undecided"         # surrounding blanks, hexadecimal fractions
    return None


def low(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


def compare(op, a, b, ci):
    """True, False, or None if the manual leaves the result open."""
    x, y = num(a), num(b)
    if "undecided" in (x, y):
        return None
    if x is not None and y is not None:
        if op == "==" and ((low(a) == low(b)) if ci else a == b) != (x == y):
            return None
    else:
        x, y = (low(a), low(b)) if ci else (a, b)
        x, y = x.encode("utf-8", "surrogateescape"), y.encode("utf-8", "surrogateescape")
    return {"==": x == y, "EQU": x == y, "NEQ": x != y, "LSS": x < y, "LEQ": x <= y, "GTR": x > y, "GEQ": x >= y}[op]


class Gen:
    def __init__(self, r):
        self.r = r
        self.env = {}
        self.el = 0
        pool = [self.value() for _ in range(6)]
        for i in range(10):
            v = r.choice(pool) if r.random() < .4 else self.value()
            if r.random() < .25:
                v = self.near(r.choice(pool))
            self.env["v%d" % i] = v
        self.undef = ["u0", "u1"]

    def number(self):
        r = self.r
        k = r.random()
        if k < .3:
            return str(r.choice([0, 1, 2, 7, 8, 9, 10, 16, 17, 99, 100, 255, 256, 2147483646, 2147483647, -1, -2, -10,
                                 -2147483648, -2147483647, r.randint(-50, 50), r.randint(-2 ** 31, 2 ** 31 - 1)]))
        if k < .4:
            return "0x%x" % r.choice([0, 1, 9, 10, 15, 16, 255, 0x7fffffff, r.randint(0, 2 ** 31 - 1)])
        if k < .5:
            return "0%o" % r.choice([0, 1, 7, 8, 9, 64, r.randint(0, 2 ** 31 - 1)])
        if k < .6:
            return r.choice(["08", "09", "018", "007", "+5", "+0", "-0", "0099", "-010", "-0x10", "+0x1F"])
        if k < .7:
            return r.choice(["2147483648", "4294967296", "4294967297", "99999999999999999999", "88888888888888888888",
                             "-99999999999999999999", "-2147483649", "9223372036854775807", "9223372036854775808",
                             "1e30", "100000000000000000000000000000"])
        if k < .85:
            return r.choice(["1.5", "0.5", ".5", "1.", "1.0", "1.50", "-1.5", "1e2", "1E2", "1.5e-3", "0.0015", "1e0", "100.0",
                             "0.1", "0.10", "-0.0", "3.14159", "1e-400", "2.5e+1", "25"])
        return "%r" % r.choice([r.uniform(-5, 5), r.uniform(-1e9, 1e9)])

    def value(self):
        r = self.r
        k = r.random()
        if k < .45:
            return self.number()
        if k < .52:
            return ""
        if k < .62:
            return r.choice(["nan", "NaN", "inf", "infinity", "-inf", "0x", "0xg", "e", "e5", "-", "+", ".", "-.", "1e", "1x", "1.2.3",
                             "12abc", "abc12", "--1", "+-1", "1 2", "fade", "deadbeef", "0b1", "1e+", "x1", "Infinity"])
        if k < .8:
            return "".join(r.choice("abAB") for _ in range(r.randint(1, 4)))
        if k < .87:
            return "".join(r.choice("aéÉ日b ") for _ in range(r.randint(1, 4)))
        return "".join(chr(r.randint(33, 126)) if r.random() < .8 else " " for _ in range(r.choice([1, 2, 5, 20])))

    def near(self, v):
        r = self.r
        k = r.random()
        if k < .3:
            return v.swapcase()
        if k < .5:
            return v + r.choice("0ab .")
        if k < .6:
            return v[:-1]
        if k < .7:
            return r.choice("x0-+") + v
        if INT.match(v) and num(v) not in (None, "undecided"):
            return str(int(num(v)) + r.choice([-1, 0, 0, 1]))
        return v

    def lit_ok(self, v):
        """May this value be written in a script between quotes, as it is?"""
        return not re.search(r'["%!^\\\n]|==', v)

    def var(self):
        return self.r.choice(list(self.env))

    def operand(self, form):
        """(text, value)"""
        r = self.r
        for _ in range(50):
            n = self.var() if r.random() < .92 else r.choice(self.undef)
            v = self.env.get(n, "")
            if form != "prefix" and (v.lower() in KEY or v.startswith("/")):
                continue
            if form == "delayed":
                return "!%s!" % r.choice([n, n.upper()]), v
            if form == "prefix":
                return "x!%s!" % n, "x" + v
            if form == "quoted":
                if not self.lit_ok(v):
                    continue
                return '"%s"' % v, v
            if form == "percent":
                if not self.lit_ok(v):
                    continue
                return '"%%%s%%"' % n, v
            if form == "bare":
                if not v or not self.lit_ok(v) or re.search(r"[\s;,&|<>()=\[\]]", v) or v.lower() in KEY or v[0] == "/":
                    continue
                return v, v
        return '"q"', "q"

    def test(self, brackets):
        """(text, truth or None, kind)"""
        r = self.r
        neg = r.random() < .3
        ci = self.ci
        k = r.random()
        if k < (.16 if not ci or brackets else 0):
            n = r.choice([self.var(), self.var().upper(), r.choice(self.undef), "path", "no-such"])
            t, v, kind = r.choice(["DEFINED ", "defined "]) + n, n.lower() in self.env and self.env[n.lower()] != "" or n == "path", \
                "defined"
            if n.lower() in self.env and self.env[n.lower()] == "":
                v = None           # an empty variable taken over from the environment
        elif k < (.3 if not ci or brackets else 0):
            f = r.choice(FILES + ["nofile", "sub", "*.txt", "?.txt", "*.dat", "*.zip", "sub/*.txt", "sub/*.zip", "ab?", "ab??", "*",
                                  "f.txt.not", "F.not"])
            t = "EXIST " + ('"%s"' % f if " " in f or r.random() < .3 else f)
            names = FILES + ["sub", "t.bat"]
            if "*" in f or "?" in f:
                d = f.count("/")
                v = any(n.count("/") == d and fnmatch.fnmatchcase(n.lower(), f.lower().replace("[", "[[]")) for n in names)
                vcase = any(n.count("/") == d and fnmatch.fnmatchcase(n, f) for n in names)
                if v != vcase:
                    v = None
            else:
                v = f in names
            kind = "exist"
        elif k < (.4 if not ci or brackets else 0):
            n = max(-3, self.el + r.choice([-2, -1, 0, 0, 1, 2, 100]))
            t, v, kind = "ERRORLEVEL %d" % n, self.el >= n, "errorlevel"
        elif k < .6 and not brackets:
            f = r.choice(["bare", "quoted", "percent", "delayed", "prefix"])
            if f in ("quoted", "percent"):
                (s, a), (u, b) = self.operand(r.choice(["quoted", "percent"])), self.operand(r.choice(["quoted", "percent"]))
            elif f == "bare":
                (s, a), (u, b) = self.operand("bare"), self.operand("bare")
            elif f == "delayed":
                (s, a), (u, b) = self.operand("delayed"), self.operand("delayed")
                if "=" in a or "=" in b or '"' in a + b:
                    a = None
            else:
                (s, a), (u, b) = self.operand("prefix"), self.operand("prefix")
                if "=" in a or "=" in b or '"' in a + b:
                    a = None
            t = s + "==" + u
            v = None if a is None else compare("==", a, b, ci)
            kind = "=="
        else:
            op = r.choice(OPS)
            f = ["bare", "quoted", "percent", "delayed", "delayed", "prefix"]
            (s, a), (u, b) = self.operand(r.choice(f)), self.operand(r.choice(f))
            if brackets and r.random() < .15:
                op = "=="
            t = "%s %s %s" % (s, op if r.random() < .7 else op.lower(), u)
            v = compare(op, a, b, ci)
            kind = op
        if neg:
            t = r.choice(["NOT ", "not "]) + t
            v = None if v is None else not v
        return t, v, kind

    def expr(self, d):
        """A bracketed expression: AND binds tighter than OR."""
        r = self.r
        if d <= 0 or r.random() < .25:
            return self.test(True)[:2]
        if r.random() < .35:
            t, v = self.expr(d - 1)
            return "[ %s ]" % t, v
        ts, vs, ops = [], [], []
        for i in range(r.choice([2, 2, 3, 4])):
            if r.random() < .3:
                t, v = self.expr(d - 1)
                t = "[ %s ]" % t
            else:
                t, v = self.test(True)[:2]
            ts.append(t)
            vs.append(v)
            if i:
                ops.append(r.choice(["AND", "OR"]))
        text = ts[0] + "".join(" %s %s" % (o if r.random() < .5 else o.lower(), t) for o, t in zip(ops, ts[1:]))
        if None in vs:
            return text, None
        groups, cur = [], vs[0]
        for o, v in zip(ops, vs[1:]):
            if o == "AND":
                cur = cur and v
            else:
                groups.append(cur)
                cur = v
        groups.append(cur)
        return text, any(groups)

    def case(self, k):
        """(lines, [(expected output, text)])"""
        r = self.r
        self.ci = r.random() < .25
        head = "IF /i " if self.ci else r.choice(["IF ", "if "])
        self.el = r.choice([0, 0, 1, 2, 5, 9])
        if r.random() < .35:
            t, v = self.expr(r.choice([1, 2, 3]))
            t, kind = "[ %s ]" % t, "brackets"
        else:
            t, v, kind = self.test(False)
        form = r.choice([0, 1, 3, 4] if self.el else range(5))
        h = head + t
        if form == 0:
            body = "%s (echo T) else (echo F)" % h
        elif form == 1:
            body = "%s (\necho T\n) else (\necho F\n)" % h
        elif form == 2:
            body = "set z=F\n%s set z=T\necho !z!" % h
        elif form == 3:
            body = "for %%%%i in (1) do %s (echo T) else (echo F)" % h
        else:
            body = "%s (echo T) else if 1==2 (echo G) else (echo F)" % h
        return ["echo @#%d#" % k, "call :s %d" % self.el, body], t, v, kind


def fn():
    c = Check("P06", "exploration", "distinct: hash of the test's text, operands and outcome; nontrivial: the manual decides it",
              ["operands that are IF keywords, hold an = next to ==, or are numbers with blanks around them are outside the domain",
               "for ==, numbers written differently are outside the domain (the manual speaks of strings there)"])

    def one(job):
        variant, b, i = job
        g = Gen(c.rng(variant, i))
        lines, cases = ["@echo off"], []
        for k in range(40):
            ls, t, v, kind = g.case(k)
            lines += ls
            cases.append((k, t, v, kind))
        text = "\n".join(lines) + "\necho @#9999#\ngoto :eof\n:s\nexit /b %1\n"
        files = {f: "" for f in FILES}
        files["t.bat"] = text
        d = c.arena.case_dir(files)
        env = run.base_env(**g.env)
        res = c.run([bat.pbat(b), "t.bat"], d, env=env, timeout=20)
        c.arena.drop(d)
        return g, text, cases, res

    for variant, n in [("plain", c.n(700, 12000)), ("asan", c.n(120, 2000))]:
        b = build.build(variant)
        for (_, _, i), (g, text, cases, res) in c.pmap(one, [(variant, b, i) for i in range(n)]):
            rep = lambda: {"script": text, "env": g.env, **res.brief(3000)}
            if res.timeout or res.crashed or (variant != "plain" and res.sanitizer()):
                c.violation("crash:%s/%d" % (variant, i), "%s" % (res.sanitizer() or ("rc %s timeout %s" % (res.rc, res.timeout))),
                            rep())
                continue
            got = bat.outputs(res.out)
            for k, t, v, kind in cases:
                c.saw((t, sorted(g.env.items()), v) if v is not None else None, v is not None,
                      sample={"test": t, "env": g.env, "true": v} if i % 100 == 3 and k == 7 else None)
                c.count("undecided" if v is None else kind + (" true" if v else " false"))
                o = got.get(k, "(missing)").split("@#")[0].strip()
                if v is not None and o != "FT"[v] or o not in ("T", "F"):
                    c.violation("branch:%s/%d/%d" % (variant, i, k), "IF %s: expected %s, got %r; env %r"
                                % (t, v, o, {n: x for n, x in g.env.items() if n in t.lower()}), rep())
    c.finish(100)


main(fn)
