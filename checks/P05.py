"""P05: traces of generated multi-file programs of labels, calls, jumps, exits and shifts against an interpreter."""
import collections, os, re
from vt.check import Check, main
from vt import build, run, bat

FILES = ["main.bat", "a.bat", "sub/b.bat"]
FUEL0 = 24
BLANK = " ;,\t"


# ---------------------------------------------------------------- the model
def tokens(s):
    """[(argument, text after it)] of an argument line: quotes group and are removed."""
    out, i, n = [], 0, len(s)
    while True:
        while i < n and s[i] in BLANK:
            i += 1
        if i >= n:
            return out
        b, q = i, False
        while i < n and (q or s[i] not in BLANK):
            q ^= s[i] == '"'
            i += 1
        w = s[b:i]
        out.append((w[1:-1] if w[0] == '"' else w, s[i:]))


class Frame:
    def __init__(self, zero, line, args=None):
        w = [t for t, _ in tokens(line)] if args is None else args
        self.a = [zero] + w[:9] + [""] * (9 - len(w))
        self.more = w[9:]
        self.star = line
        self.moved = False

    def copy(self):
        f = Frame.__new__(Frame)
        f.a, f.more, f.star = list(self.a), list(self.more), self.star
        return f

    def shift(self, s, d):
        k = self.a[s + d:]
        pool = self.more
        self.a = self.a[:s] + k if s + d < 10 else self.a[:s]
        while len(self.a) < 10 and pool:
            self.a.append(pool.pop(0))
        self.a += [""] * (10 - len(self.a))


class Goto(Exception):
    def __init__(self, f, i):
        self.f, self.i = f, i


class Leave(Exception):
    pass


class Quit(Exception):
    def __init__(self, code):
        self.code = code


class Model:
    def __init__(self, files, root, cov):
        self.files, self.root, self.cov = files, root, cov
        self.out, self.el, self.fuel, self.cnt, self.depth = [], 0, FUEL0, {}, 0

    def path(self, f):
        return os.path.join(self.root, f)

    def label(self, f, name):
        for i, l in enumerate(self.files[f]):
            if l[0] == "label" and l[1].lower() == name.lower():
                return i
        return None

    def sub(self, text, fr, loop=None):
        def one(m):
            k = m.group(1)
            if k.isdigit():
                return fr.a[int(k)]
            return fr.star
        text = re.sub(r"%([0-9*])", one, text)
        text = text.replace("%%i", loop) if loop is not None else text
        if len(text) > 1500 or len(self.out) > 300:
            raise RuntimeError("too long")
        return text

    def run_file(self, f, i, fr):
        """Run lines of f from i until the frame ends."""
        self.depth += 1
        if self.depth > 12:
            raise RuntimeError("too deep")
        try:
            while i < len(self.files[f]):
                l = self.files[f][i]
                i += 1
                if l[0] == "label":
                    continue
                try:
                    self.stmt(l, f, fr, fr.copy(), None)
                except Goto as g:
                    f, i = g.f, g.i
        except Leave as l:
            return l.args[0]
        finally:
            self.depth -= 1
        return 0

    def call(self, f, i, zero, line):
        self.cov["calls"] += 1
        self.cov["depth%d" % self.depth] += 1
        self.run_file(f, i, Frame(zero, line))

    def stmt(self, s, f, fr, snap, loop):
        k = s[0]
        if k == "fuel":
            self.fuel -= 1
            self.el = 0
            if self.fuel <= 0:
                self.el = 9
                raise Leave(9)
        elif k == "trace":
            parts = []
            for v in s[2]:
                if v == "e":
                    parts.append("!errorlevel!" and str(self.el))
                elif v == "i":
                    parts.append(loop if loop is not None else "-")
                elif v == "*":
                    parts.append(snap.star.strip())
                elif v == "+":
                    parts.append(" ".join(x or '""' for x in snap.more))
                else:
                    parts.append(snap.a[int(v)])
            if len(self.out) > 300:
                raise RuntimeError("too long")
            self.out.append((s[1], [p for p in parts]))
            self.cov["traces"] += 1
            self.el = 0
        elif k == "goto":
            self.goto(s[1], s[2], f)
        elif k == "eof":
            self.cov["goto :eof"] += 1
            raise Leave(0)
        elif k == "call":
            tgt, lab, args = s[1], s[2], self.sub(s[3], snap, loop)
            if lab is not None:
                i = self.label(tgt or f, lab)
                if i is None:
                    self.el = 6
                    self.cov["calls of a missing label"] += 1
                    return
                self.call(tgt or f, i, ":" + lab, args)
            else:
                self.call(tgt, 0, self.path(tgt), args)
        elif k == "exitb":
            self.cov["exit /b"] += 1
            if s[1] is not None:
                self.el = s[1]
            raise Leave(self.el)
        elif k == "exit":
            raise Quit(s[1])
        elif k == "shift":
            self.cov["shifts"] += 1
            fr.shift(s[1], s[2])
            self.el = 0
        elif k == "block":
            for x in s[1]:
                self.stmt(x, f, fr, snap, loop)
        elif k == "for":
            for v in s[1]:
                self.stmt(s[2], f, fr, snap, v)
        elif k == "iff":
            if self.fuel >= s[1]:
                self.stmt(s[2], f, fr, snap, loop)
        elif k == "iffor":
            if loop is None or loop == s[1]:
                self.stmt(s[2], f, fr, snap, loop)
        elif k == "ifarg":
            if snap.a[s[1]] != "":
                self.stmt(s[2], f, fr, snap, loop)
        else:
            raise AssertionError(k)

    def goto(self, tgt, lab, f):
        i = self.label(tgt or f, lab)
        if i is None:
            self.el = 6
            self.cov["gotos to a missing label"] += 1
            return
        self.cov["gotos"] += 1
        raise Goto(tgt or f, i)


# ---------------------------------------------------------------- the generator
PLAIN = "abcXYZ019.-_+@#~'{}$=é日"


class Gen:
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.labels = {}

    def word(self):
        r = self.r
        w = "".join(r.choice(PLAIN) for _ in range(r.choice([1, 1, 2, 3, 5])))
        return w if w[0] not in "=" else "q" + w

    def arg(self):
        r = self.r
        if r.random() < .3:
            n = r.choice([0, 1, 2, 4])
            return '"' + "".join(r.choice(PLAIN + "  ;,") for _ in range(n)) + '"'
        return self.word()

    def args(self, forward=True):
        r = self.r
        o = []
        for _ in range(r.choice([0, 1, 2, 3, 3, 5, 9, 11, 13])):
            x = r.random()
            if forward and x < .18:
                o.append('"%%%d"' % r.randint(1, 9))
            elif forward and x < .3:
                o.append("%%%d" % r.randint(1, 9))
            elif forward and x < .34:
                o.append("%*")
            else:
                o.append(self.arg())
        return "".join(r.choice([" ", " ", " ", "  ", ",", ";", " ; "]) + a for a in o)

    def case(self, l):
        return "".join(self.r.choice([c.lower(), c.upper()]) if c < "\x7f" else c for c in l)

    def lab(self, f):
        """A label of f (or a missing one)."""
        r = self.r
        if r.random() < .06:
            return "missing%d" % r.randint(0, 9)
        return self.case(r.choice(self.labels[f]))

    def trace(self, loop):
        r = self.r
        self.k += 1
        vs = r.sample("0123456789*+e", r.choice([2, 3, 5, 13]))
        if loop:
            vs.append("i")
        return ("trace", self.k, vs)

    def jump(self, f):
        r = self.r
        x = r.random()
        if x < .62:
            t = r.choice(FILES) if r.random() < .12 else None
            return ("goto", t, self.lab(t or f))
        if x < .75:
            return ("eof",)
        if x < .97:
            return ("exitb", r.choice([None, 0, 1, 2, 7, 255, 300, 256, 65536, -1]))
        return ("exit", r.choice([0, 1, 3, 7, 42]))

    def call(self, f):
        r = self.r
        x = r.random()
        a = self.args()
        if x < .6:
            return ("call", None, self.lab(f), a)
        t = r.choice(FILES)
        if x < .8:
            return ("call", t, None, a)
        return ("call", t, self.lab(t), a)

    def stmt(self, f, depth, loop=False):
        r = self.r
        x = r.random()
        if x < .3:
            return self.trace(loop)
        if x < .55:
            return ("block", [self.call(f), self.trace(loop)])
        if x < .63:
            s = r.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9])
            return ("shift", s, r.choice([1, 1, 1, 1, 2, 3, 5, 9, 0]))
        if depth <= 0 or x < .72:
            return ("iff", r.randint(1, FUEL0), self.jump(f))
        if x < .78:
            return ("ifarg", r.randint(1, 4), r.choice([self.jump, self.call])(f))
        if x < .9:
            return ("block", [self.stmt(f, depth - 1, loop) for _ in range(r.choice([2, 3]))])
        if loop:
            return self.trace(loop)
        vs = [self.word().replace("=", "q") for _ in range(r.choice([1, 2, 3]))]
        body = [self.stmt(f, depth - 1, True) for _ in range(r.choice([1, 2]))]
        if r.random() < .5:
            body.insert(1, ("iffor", r.choice(vs), self.jump(f)))
        if r.random() < .4:
            body.append(("call", None, self.lab(f), " %%i" + self.args()))
        return ("for", vs, ("block", body))

    def files(self):
        r = self.r
        out = {}
        for f in FILES:
            pool = ["l%d" % i for i in range(6)] + ["loop", "loop2", "l", "end-x", "été", "a.b"]
            if r.random() < .5:         # labels that begin alike
                b = r.choice(["l", "loop", "end", "été", "a_rather_long_name_of_a_label_in_a_script" * r.choice([1, 1, 2])])
                pool = [b] + [b + c + r.choice(["", "x", "2", "two"]) for c in r.sample("-_.#@$+~?{}[]'é09aZ", 6)]
                pool += [b[:-1], b + b]
                pool = [x for i, x in enumerate(pool) if x and x.lower() not in [y.lower() for y in pool[:i]]]
            self.labels[f] = r.sample(pool, r.choice([2, 3, 4, 5]))
        for f in FILES:
            ls = [("trace", 0, list("0123*")), ("fuel",)]
            ls += [self.stmt(f, 2) for _ in range(r.choice([1, 2, 3]))]
            for l in r.sample(self.labels[f], len(self.labels[f])):
                if r.random() < .7:
                    ls.append(r.choice([("eof",), ("exitb", None), ("exitb", r.randint(0, 9))]))
                ls += [("label", l), ("fuel",)]
                if r.random() < .08:
                    ls += [("trace", 0, ["e"]), ("label", l)]    # a second label of that name is never reached first
                if r.random() < .2:
                    ls += [("trace", 0, ["1", "2", "+"]), ("shift", r.choice([0, 1]), 1),
                           ("ifarg", 1, ("goto", None, l))]
                ls += [self.stmt(f, 2) for _ in range(r.choice([1, 1, 2, 3]))]
            out[f] = ls
        # number the traces
        return out


class Text:
    def __init__(self, r):
        self.r = r

    def inner(self, ss, multi):
        if multi:
            return "\n".join(self.s(x, True) for x in ss)
        # IF and FOR take the whole rest of their line
        return "& ".join(("(%s)" if x[0] in ("iff", "iffor", "ifarg", "for") else "%s") % self.s(x) for x in ss)

    def lab(self, l):
        return ":" + l

    def s(self, s, multi=False):
        r, k = self.r, s[0]
        if k == "fuel":
            return "set /a fuel-=1 >nul & if !fuel! leq 0 exit /b 9"
        if k == "trace":
            o = []
            for x in s[2]:
                o.append("[%s]" % {"e": "!errorlevel!", "i": "%%i"}.get(x, "%" + x))
            return "echo @%d@%s" % (s[1], "|".join(o).replace("|", "^|"))
        if k == "goto":
            f = "" if s[1] is None else " /f:%s" % s[1]
            q = " /q" if r.random() < .2 else ""
            sp = r.choice([" ", " ", " :", " :", ":"]) if not f and not q else r.choice([" ", " :"])
            return "%s%s%s%s%s" % (r.choice(["goto", "GoTo"]), q, f, sp, s[2])
        if k == "eof":
            return r.choice(["goto :eof", "goto :EOF", "goto:eof"])
        if k == "call":
            if s[2] is None:
                return "call %s%s" % (r.choice([s[1], '"%s"' % s[1]]) if " " not in s[1] else s[1], s[3])
            if s[1] is None:
                return "call%s:%s%s" % (r.choice([" ", " ", ""]), s[2], s[3])
            return "call /e %s %s%s" % ((s[1], ":" + s[2], s[3]) if r.random() < .7 else (":" + s[2], s[1], s[3]))
        if k == "exitb":
            return "exit /b" + ("" if s[1] is None else " %d" % s[1])
        if k == "exit":
            return "exit %d" % s[1]
        if k == "shift":
            o = []
            if s[1] or r.random() < .3:
                o.append(r.choice(["/%d", "/s:%d", "/s%d"]) % s[1])
            if s[2] != 1 or r.random() < .2:
                o.append(r.choice(["/d:%d", "/d%d"]) % s[2])
            r.shuffle(o)
            return " ".join(["shift"] + o)
        if k == "block":
            m = multi if multi else False
            if m:
                return "(\n%s\n)" % self.inner(s[1], True)
            return "(%s)" % self.inner(s[1], False)
        if k == "for":
            return "for %%%%i in (%s) do %s" % (" ".join(s[1]), self.s(s[2], multi))
        if k == "iff":
            return "if !fuel! geq %d %s" % (s[1], self.paren(s[2]))
        if k == "iffor":
            return 'if "%%%%i"=="%s" %s' % (s[1], self.paren(s[2]))
        if k == "ifarg":
            return 'if not "%%%d"=="" %s' % (s[1], self.paren(s[2]))
        raise AssertionError(k)

    def paren(self, x):
        return "(%s)" % self.s(x)

    def file(self, ls):
        r = self.r
        o = ["@echo off"]
        for l in ls:
            if l[0] == "label":
                o.append(r.choice(["", "", "  ", "\t"]) + ":" + l[1] + r.choice(["", "", " ", " some words", " ; x"]))
            else:
                t = self.s(l, l[0] in ("block", "for") and r.random() < .5)
                o.append(r.choice(["", "", "", " ", "\t"]) + t if "\n" not in t else t)
        return "\n".join(o) + r.choice(["\n", "\n", ""])


def renumber(fs):
    n = [0]

    def go(s):
        if isinstance(s, tuple) and s and s[0] == "trace":
            n[0] += 1
            return ("trace", n[0], s[2])
        if isinstance(s, tuple):
            return tuple(go(x) for x in s)
        if isinstance(s, list):
            return [go(x) for x in s]
        return s
    return {f: go(ls) for f, ls in fs.items()}


def fn():
    c = Check("P05", "exploration",
              "distinct: hash of the trace of a program; nontrivial: at least one call, jump or shift took place",
              ["arguments are wholly quoted or free of quotes, and hold no operator characters, percent or exclamation "
               "marks", "a script ending without EXIT gives exit status 0, one ending with EXIT /B the code in force"])

    def one(job):
        variant, b, i = job
        r = c.rng(variant, i)
        g = Gen(r)
        for _ in range(50):
            fs = renumber(g.files())
            margs = [re.sub(r'"', "", g.arg()) for _ in range(r.choice([0, 0, 1, 3, 9, 12]))]
            d = c.arena.case_dir()
            cov = collections.Counter()
            m = Model(fs, d, cov)
            fr = Frame(m.path("main.bat"), "", [a for a in margs])
            code = None
            try:
                fr.star = "".join(('"%s" ' if not a or re.search("[ ,;=\t]", a) else "%s ") % a for a in margs)
                code = m.run_file("main.bat", 0, fr)
            except Quit as q:
                code = q.code
            except RuntimeError:
                c.arena.drop(d)
                continue
            break
        t = Text(r)
        texts = {f: t.file(ls) for f, ls in fs.items()}
        os.mkdir(os.path.join(d, "sub"))
        for f, x in texts.items():
            with open(os.path.join(d, f), "w", encoding="utf-8") as fh:
                fh.write(x)
        res = c.run([bat.pbat(b), "main.bat"] + margs, d, env=run.base_env(fuel=str(FUEL0)), timeout=20)
        c.arena.drop(d)
        return m, code, texts, res, margs

    for variant, n in [("plain", c.n(1500, 25000)), ("asan", c.n(250, 4000))]:
        b = build.build(variant)
        for (_, _, i), (m, code, texts, res, margs) in c.pmap(one, [(variant, b, i) for i in range(n)]):
            for k, v in m.cov.items():
                c.count(k, v)
            exp = ["@%d@%s" % (k, "|".join("[%s]" % x for x in ps)) for k, ps in m.out]
            c.saw(tuple(exp), sum(m.cov.values()) > m.cov["traces"],
                  sample={"main.bat": texts["main.bat"], "trace": exp[:20]} if i % 500 == 7 else None)
            got = [l for l in res.out.decode("utf-8", "replace").split("\n") if l.strip()]
            # %* and %+ are compared without the blanks around them and their quoting
            bad = None
            if res.timeout:
                bad = "hang", "the script did not end"
            elif res.crashed or (variant != "plain" and res.sanitizer()):
                bad = "crash:%s" % res.sanitizer(), "crash or sanitizer report"
            else:
                e2 = [norm(x) for x in exp]
                g2 = [norm(x) for x in got]
                if e2 != g2:
                    j = next((j for j in range(min(len(e2), len(g2))) if e2[j] != g2[j]), min(len(e2), len(g2)))
                    bad = "trace", "step %d: expected %r, got %r" % (j, exp[j:j + 1], got[j:j + 1])
                elif res.rc != code & 255:
                    bad = "status", "exit status %s, expected %d" % (res.rc, code)
            if bad:
                c.violation("%s:%s/%d" % (bad[0], variant, i), bad[1],
                            {"files": texts, "args": margs, "expected": exp, **res.brief(6000)})
    c.finish(100)


def norm(l):
    """Blanks around the value and the escapes and quotes of %* and %+ are not specified."""
    return re.sub(r"\[ *| *\] *", lambda m: m.group().strip(), l.replace("^", "").replace('"', ""))


main(fn)
