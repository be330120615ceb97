"""P22: DEF makes procedures: named, given arguments, redefined, and with variables of their own."""
import copy, re
from vt.check import Check, main
from vt import build, run, bat

NAMES = ["p", "pq", "pqr", "p-q", "p.q", "P2", "q", "zz", "Zz-1", "zz.2", "a_b", "été", "cdx", "cd-x", "ren", "renx", "rename", "set-x", "dir-x", "dirx",
         "iffy", "forx", "def2", "calls", "type", "typewriter", "ver", "verb", "x1", "x10", "x1-0", "mods", "wc", "wcx", "finder", "move", "mov",
         "go", "gotox", "long" + "name" * 20, "#", "~t", "a+b", "[k]", "{m}"]
BUILTIN = {"ren", "rename", "type", "ver", "wc", "move"}
GV = ["g", "h", "Count", "val2"]
LV = ["_a", "_b", "_c", "_long_name", "_1", "_é"]
VALS = ["1", "x", "two", "a-b", "v.w", "9", "été", "Q", "k_l", "0x10"]


class Env:
    """all variables; the local ones have a value for each procedure that is running"""

    def __init__(self):
        self.v, self.marks, self.up = {}, set(), []

    def get(self, n):
        return self.v.get(n.lower(), (n, ""))[1]

    def set(self, n, val, x=False):
        k = n.lower()
        if val:
            self.v[k] = (self.v[k][0] if k in self.v else n, val)
        else:
            self.v.pop(k, None)
        if x and k[0] == "_":
            self.marks.add(k)
        if not val and not any(k in u[0] for u in self.up):
            # there is nothing left to be inherited
            self.marks.discard(k)

    def push(self):
        self.up.append(({k: v for k, v in self.v.items() if k[0] == "_"}, self.marks))
        self.marks = set()

    def pop(self):
        old, om = self.up.pop()
        now = {k: v for k, v in self.v.items() if k[0] == "_"}
        for k in now:
            del self.v[k]
        self.v.update(old)
        for k in self.marks:
            if k in now:
                self.v[k] = now[k]
            else:
                self.v.pop(k, None)
        self.marks = om


def args_of(text):
    """the parameters in a text of words, blanks, commas and quotes"""
    out = []
    for m in re.finditer(r'"([^"]*)"|[^ ,;"]+', text):
        out.append(m.group(1) if m.group(0)[0] == '"' else m.group(0))
    return out


class Over(Exception):
    pass


class World:
    def __init__(self):
        self.env, self.procs, self.steps = Env(), {}, 0

    def exp(self, t):
        return re.sub(r"!([^! ]+)!", lambda m: self.env.get(m.group(1)), t)

    def run(self, seq, a, out, forv=None):
        for s in seq:
            self.step(s, a, out, forv or {})

    def sub(self, t, a, forv):
        """arguments, then FOR variables"""
        if a is not None:
            t = re.sub(r"\$([1-9*])", lambda m: a[0] if m.group(1) == "*" else (a[1] + [""] * 9)[int(m.group(1)) - 1], t)
        return re.sub(r"%([I-L])", lambda m: forv.get(m.group(1), m.group(0)), t)

    def step(self, s, a, out, forv):
        self.steps += 1
        if self.steps > 3000:
            raise Over
        k = s[0]
        if k == "echo":
            out.append(self.exp(self.sub(s[1], a, forv)))
        elif k == "set":
            self.env.set(self.exp(self.sub(s[1], a, forv)), self.exp(self.sub(s[2], a, forv)), s[3])
        elif k == "ifdef":
            t = tuple(self.sub(x, a, forv) for x in s[1]) if isinstance(s[1], tuple) else s[1]
            self.run(s[2] if (t[0] == t[1] if isinstance(t, tuple) else self.env.get(t)) else s[3], a, out, forv)
        elif k == "call":
            t = self.sub(s[2], a, forv).lstrip(" ,;\t")
            body = self.procs.get(s[1].lower())
            if body is None:
                raise Over
            # $1 to $9 are the parameters written, then expanded in the caller; $* is the text, which the procedure expands
            a2 = (t, [self.exp(x) for x in args_of(t)])
            self.env.push()
            self.run(body[0], a2, out)
            self.env.pop()
        elif k == "for":
            for i in s[2]:
                self.run(s[3], a, out, dict(forv, **{s[1]: self.sub(i, a, forv)}))
        elif k == "setlocal":
            e = copy.deepcopy(self.env)
            self.run(s[1], a, out, forv)
            self.env = e
        elif k == "pipe":
            e = copy.deepcopy(self.env)
            self.run(s[1], a, out, forv)
            self.env = e
        elif k == "list":
            out.append(("set", sorted("%s=%s" % v for kk, v in self.env.v.items() if kk.startswith(s[1]))))
        elif k == "printenv":
            if self.env.get(s[1]):
                out.append(self.env.get(s[1]))
        elif k == "def":
            if s[3] or s[1].lower() not in self.procs and s[1].lower() not in BUILTIN:
                self.procs[s[1].lower()] = (s[2], s[4], s[1] if s[1].lower() not in self.procs and s[1].lower() not in BUILTIN else None)
        elif k == "defs":
            out.append(("defs", sorted("%s=%s" % (n, b[1]) for n, b in self.procs.items() if n.startswith(s[1].lower()) and "\n" not in b[1])))


class Gen:
    def __init__(self, r):
        self.r = r
        self.order = r.sample(NAMES, r.randint(3, 10))
        self.labels, self.kinds = [], {}

    def word(self, inproc):
        r = self.r
        k = r.random()
        if k < 0.35:
            return r.choice(VALS)
        if k < 0.6 and inproc:
            return "$" + r.choice("1112223456789")
        if k < 0.85:
            return "!%s!" % r.choice(GV + LV)
        return r.choice(GV + LV)

    def argtext(self, inproc):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 9, 10, 12])):
            k = r.random()
            if k < 0.1:
                out.append('"%s %s"' % (r.choice(VALS), r.choice(VALS)))
            elif k < 0.14:
                out.append('""')
            elif k < 0.22 and not inproc:
                out.append(r.choice(["$1", "$2", "$9", "$*", "x$1y", "$", "$x", "$0"]))
            elif k < 0.3 and inproc:
                out.append("$*")
            else:
                out.append(self.word(inproc))
        return "".join(w + (r.choice([" ", " ", "  ", ",", "; "]) if j < len(out) - 1 else "") for j, w in enumerate(out))

    def leaf(self, defined, inproc, forv, marked):
        r = self.r
        k = r.random()
        if k < 0.3:
            ws = [self.word(inproc) for _ in range(r.randint(1, 3))]
            if inproc and r.random() < 0.4:
                ws.append(r.choice(["$*", "$1$2", "$", "$$1", "$x", "$10", "$0", "$9", "a$"]))
            if forv and r.random() < 0.7:
                ws.append("%" + r.choice(forv))
            return ("echo", "[" + " ".join(ws) + "]")
        if k < 0.68:
            n = r.choice(GV + LV * 3)
            x = n in marked or (n[0] == "_" and r.random() < 0.25)
            if x:
                marked.add(n)
            self.saw("set /x" if x else "set local" if n[0] == "_" else "set global")
            v = "" if r.random() < 0.25 else "%" + r.choice(forv) if forv and r.random() < 0.4 else self.word(inproc) + r.choice(["", "", "-" + r.choice(VALS)])
            return ("set", n, v, x)
        if k < 0.76:
            return ("list", r.choice(["_", "_a", "g"]))
        if k < 0.8:
            return ("printenv", r.choice(LV + GV))
        if defined:
            t = self.argtext(inproc)
            if forv and r.random() < 0.5:
                t = ("%" + r.choice(forv) + " " + t).strip()
            self.saw("procedure called" + (" by another" if inproc else ""))
            n = r.choice(defined)
            return ("call", r.choice([n, n, n.upper() if n.isascii() else n]), t)
        return ("echo", "[" + self.word(inproc) + "]")

    def seq(self, defined, inproc, depth, forv=(), marked=None):
        r = self.r
        out = []
        marked = set() if marked is None else marked
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if depth and k < 0.1:
                n = ("$" + r.choice("1123"), r.choice(VALS[:3] + ["$1", "$2"])) if inproc and r.random() < 0.4 else r.choice(GV + LV)
                out.append(("ifdef", n, self.seq(defined, inproc, depth - 1, forv, marked), self.seq(defined, inproc, depth - 1, forv, marked)))
            elif depth and k < 0.18:
                v = "IJKL"[len(forv)]
                items = [self.word(inproc) for _ in range(r.randint(1, 3))]
                items = [i for i in items if "!" not in i and "$" not in i] or ["x"]
                out.append(("for", v, items, self.seq(defined, inproc, depth - 1, list(forv) + [v], marked)))
                self.saw("for")
            elif depth and k < 0.24:
                out.append(("setlocal", self.seq(defined, inproc, depth - 1, forv, set(marked))))
                self.saw("setlocal")
            elif depth and k < 0.29:
                out.append(("pipe", self.seq(defined, inproc, 0, forv, set(marked))))
                self.saw("pipe")
            else:
                out.append(self.leaf(defined, inproc, forv, marked))
        return out

    def saw(self, k):
        self.kinds[k] = self.kinds.get(k, 0) + 1

    # ---- text
    def text(self, seq):
        """lines"""
        r = self.r
        ls = []
        P = lambda t: t.replace("%", "%%")
        for s in seq:
            k = s[0]
            if k == "echo":
                ls.append("echo " + P(s[1]))
            elif k == "set":
                ls.append("set %s%s=%s" % ("/x " if s[3] else "", s[1], P(s[2])))
            elif k == "ifdef":
                ls += ['if "%s"=="%s" (' % s[1] if isinstance(s[1], tuple) else "if defined %s (" % s[1]] + self.text(s[2]) + [") else ("] + self.text(s[3]) + [")"]
            elif k == "call":
                ls.append((s[1] + " " + P(s[2])) if s[2] else s[1])
            elif k == "for":
                ls += ["for %%%%%s in (%s) do (" % (s[1], " ".join(P(i) for i in s[2]))] + self.text(s[3]) + [")"]
            elif k == "setlocal":
                ls += ["setlocal"] + self.text(s[1]) + ["endlocal"]
            elif k == "pipe":
                ls += ["("] + self.text(s[1]) + [") | /bin/cat"]
            elif k == "list":
                ls += ["echo @{", "set " + s[1], "echo @}"]
            elif k == "printenv":
                ls.append("/usr/bin/printenv " + s[1])
            elif k == "defs":
                ls += ["echo @{", "def /l " + s[1], "echo @}"]
        return ls

    def define(self, w, top):
        """a definition: adds to top, changes w"""
        r = self.r
        n = r.choice(self.order)
        i = self.order.index(n)
        have = n.lower() in w.procs
        below = [m for m in self.order[:i] if m.lower() in w.procs]
        force = r.random() < (0.6 if have or n in BUILTIN else 0.2)
        style = r.random()
        if style < 0.2:
            body = [self.leaf(below, True, (), set())]
            while body[0][0] in ("list",):
                body = [self.leaf(below, True, (), set())]
            txt = self.text(body)[0]
        elif style < 0.4:
            body = [b for b in self.seq(below, True, 0) if b[0] != "list"] or [("echo", "[$1]")]
            txt = "(" + "&".join(self.text(body)) + ")"
        else:
            body = self.seq(below, True, 2)
            txt = "(\n" + "\n".join("  " * r.choice([0, 1]) + l for l in self.text(body)) + "\n)"
        shown = txt.replace("%%", "%")
        top.append((["def %s%s=%s" % ("/f " if force else "", n, txt)], ("def", n, body, force, shown)))
        self.saw("defined" if not have and n not in BUILTIN else "redefined" if force else "not redefined")


def match(got, exp):
    """got: lines; exp: lines and sets; what differs or None"""
    i = 0
    for e in exp:
        if isinstance(e, tuple):
            j = i + 1
            if got[i:i + 1] != ["@{"]:
                return i, e
            while j < len(got) and got[j] != "@}":
                j += 1
            seen = got[i + 1:j]
            if e[0] == "set" and sorted(seen) != e[1]:
                return i, e
            if e[0] == "defs" and not set(x.lower() for x in e[1]) <= set(x.lower() for x in seen):
                return i, e
            i = j + 1
        else:
            if got[i:i + 1] != [e]:
                return i, e
            i += 1
    return None if i == len(got) else (i, None)


def build_case(r):
    g = Gen(r)
    w = World()
    out, lines = [], []
    todo = []
    for _ in range(r.choice([8, 15, 30])):
        top = []
        if r.random() < 0.4:
            g.define(w, top)
        else:
            defined = [n for n in g.order if n.lower() in w.procs]
            k = r.random()
            if k < 0.75:
                marked = set(n for n in LV if n in w.env.marks)
                for s in g.seq(defined, False, 2, (), marked):
                    top.append((g.text([s]), s))
            elif k < 0.85 and defined:
                # as in pairs, and with other delimiters
                n = r.choice(defined)
                t = g.argtext(False)
                if t and t[0] not in "\"$!" and r.random() < 0.6:
                    d = r.choice([",", ";", "/", "\t"])
                    top.append(([n + d + t], ("call", n, (d if d != "\t" else "") + t)))
                else:
                    top.append((["%s %s& echo after" % (n, t) if w.procs[n.lower()][1][0] == "(" else "%s %s" % (n, t)], ("call", n, t)))
                    if w.procs[n.lower()][1][0] == "(":
                        top.append(([], ("echo", "after")))
            elif k < 0.93:
                s = ("defs", r.choice(g.order))
                top.append((g.text([s]), s))
            elif defined:
                s = [("call", r.choice(defined), g.argtext(False))]
                g.labels.append(g.text(s))
                top.append((["call :L%d" % (len(g.labels) - 1)], s[0]))
        for ls, s in top:
            lines += ls
            w.step(s, None, out, {})
    s = ("list", "_")
    lines += g.text([s])
    w.step(s, None, out, {})
    script = "@echo off\nsetlocal enabledelayedexpansion\n" + "\n".join(lines) + "\ngoto :eof\n"
    for i, ls in enumerate(g.labels):
        script += ":L%d\n%s\ngoto :eof\n" % (i, "\n".join(ls))
    return g, w, script, out


def fn():
    c = Check("P22", "exploration", "distinct: hash of the script; nontrivial: a procedure is called",
              ["procedures that end with more or fewer SETLOCAL than ENDLOCAL, or change a local variable without /x after having "
               "changed it with /x, are outside the domain", "the output of DEF /l is compared for procedures of one line"])
    bins = {v: build.build(v) for v in ("plain", "asan")}

    def one(i):
        for t in range(20):
            try:
                g, w, script, out = build_case(c.rng(i, t))
            except Over:
                continue
            if sum(len(x) for x in out if isinstance(x, str)) < 100000:
                break
        v = "asan" if i % 4 == 3 else "plain"
        d = c.arena.case_dir({"t.bat": script})
        res = c.run([bat.pbat(bins[v]), "t.bat"], d, timeout=30)
        c.arena.drop(d)
        return v, g, script, out, res

    for i, (v, g, s, out, res) in c.pmap(one, range(c.n(3000, 60000))):
        rep = {"script": s, "expected": out, "variant": v, **res.brief(6000)}
        c.saw(s, nontrivial=any(k.startswith("procedure") for k in g.kinds), lines=len(out), asan=int(v == "asan"),
              **{k.replace(" ", "_"): x for k, x in g.kinds.items()})
        if i in (3, 4):
            c.samples.append({"script": s.split("\n")[2:12], "expected": out[:4]})
        if res.timeout or res.crashed or (v == "asan" and res.sanitizer()):
            c.violation("abnormal/%d" % i, "hang" if res.timeout else res.sanitizer() or "signal %d" % -res.rc, rep)
            continue
        got = res.out.decode("utf-8", "surrogateescape").split("\n")
        if got[-1] == "":
            got.pop()
        m = match(got, out)
        if m:
            c.violation("def/%d" % i, "line %d is %r instead of %r" % (m[0], got[m[0]:m[0] + 3], m[1]), rep)
    c.finish(1000)


if __name__ == "__main__":
    main(fn)
