"""P03: every read path shows the variables the history of SET/SETLOCAL/ENDLOCAL/CALL left."""
import re
from vt.check import Check, main
from vt import build, run, bat

TAME = "abcXYZ019._-+/@#:;,'= ()[]{}"
WILD = "".join(chr(c) for c in range(32, 127)) + "\t"
NCH = "abcdeABCDExyzXYZ019.-#@$_"
RESERVED = {"cd", "errorlevel", "date", "time", "random", "path", "probe", "prompt", "pathext"}


def low(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


def flip(r, s):
    return "".join((c.upper() if r.random() < .5 else c.lower()) if c.isascii() else c for c in s)


class World:
    """The map model, executed while the script is generated."""

    def __init__(self, r, big):
        self.r = r
        self.vars = {}                     # folded name -> (name, value)
        self.delayed = True
        self.stacks = [[]]
        self.lines = []
        self.expect = []
        self.subs = []
        self.files = {}
        self.names = [self.name() for _ in range(r.choice([3, 6, 12, 40]))]
        self.big = big
        self.budget = r.choice([20, 40, 80])
        self.ncall = 0

    def name(self):
        r = self.r
        while True:
            n = "".join(r.choice(NCH) for _ in range(r.choice([1, 1, 2, 3, 5, 8, 14])))
            if r.random() < .12 and getattr(self, "seen", None):    # names that begin alike, long ones too
                b = r.choice(self.seen)
                n = b + r.choice(NCH) * r.choice([1, 1, 2, 30, 120]) + r.choice(["", r.choice(NCH)])
                n = n[:r.choice([len(n), len(n), len(b) + 1])]
            self.seen = getattr(self, "seen", [])[-5:] + [n]
            if r.random() < .08:
                n += r.choice(["é", "ß", "漢"])
            if r.random() < .06:
                n = n + " " + r.choice("abc")
            if (low(n) not in RESERVED and n[0] not in "+-*0123456789" and not low(n).startswith("pbat") and
                    n[0] not in "/="):
                return n

    # -- expected
    def mark(self, out, kind, exp):
        out.append("echo @#%d#" % len(self.expect))
        self.expect.append((kind, exp))

    def snapshot(self):
        return dict(self.vars), self.delayed

    # -- one operation
    def op(self, out, depth):
        r = self.r
        k = r.random()
        n = r.choice(self.names)
        f = low(n)
        shown = flip(r, n)
        if k < .34:
            v = "".join(r.choice(TAME) for _ in range(r.choice([1, 2, 5, 12, 30])))
            if r.random() < .03:
                v = v * r.choice([20, 60])
            form = r.randrange(4)
            if form == 0 and "\"" not in v:
                out.append('set "%s=%s"' % (shown, v) + r.choice(["", " ", " ignored"]))
            elif form == 1:
                out.append("set %s%s=%s" % (shown, r.choice([" ", "  ", "\t"]), v))
            elif form == 2:
                out.append("set  %s=%s" % (shown, v))
            else:
                out.append("set %s=%s" % (shown, v))
            self.store(shown, v)
        elif k < .42:
            out.append("set %s=" % shown)
            self.vars.pop(f, None)
        elif k < .46:
            out.append('set "%s="' % shown)
            self.vars.pop(f, None)
        elif k < .54 and self.delayed:
            m = r.choice(self.names)
            out.append("set %s=!%s!" % (shown, flip(r, m)))
            if low(m) in self.vars:
                self.store(shown, self.vars[low(m)][1])
            else:
                self.vars.pop(f, None)
        elif k < .57:
            v = "".join(r.choice(WILD) for _ in range(r.choice([1, 4, 20, 100])))
            fn = "in%d" % len(self.files)
            self.files[fn] = v + r.choice(["\n", "\nsecond line\n", ""])
            out.append("set /p %s=<%s" % (shown, fn))
            self.store(shown, v)
        elif k < .64 and len(self.stacks[-1]) < 6:
            self.stacks[-1].append(self.snapshot())
            o = r.randrange(4)
            if o == 0:
                self.delayed = True
                out.append("setlocal " + flip(r, "EnableDelayedExpansion"))
            elif o == 1:
                self.delayed = False
                out.append("setlocal " + flip(r, "DisableDelayedExpansion"))
            elif o == 2:
                out.append("setlocal EnableExtensions")
            else:
                out.append("setlocal")
        elif k < .71:
            out.append("endlocal")
            if self.stacks[-1]:
                self.vars, self.delayed = self.stacks[-1].pop()
        elif k < .75 and depth < 3 and self.ncall < 12:
            self.call(out, depth)
        elif k < .83:
            if self.delayed:
                self.mark(out, "expansion", "[%s]\n" % self.vars.get(f, ("", ""))[1])
                out.append("echo [!%s!]" % shown)
            else:
                self.mark(out, "mode", "!%s!\n" % shown)
                out.append("echo !%s!" % shown)
        elif k < .89:
            p = shown[:r.choice([1, 2, 3, 20])].strip() or shown[:1]
            self.mark(out, "listing", {x for x in self.vars.values() if low(x[0]).startswith(low(p))})
            out.append("set %s" % p)
        elif k < .93 and " " not in n:
            self.mark(out, "IF DEFINED", "yes\n" if f in self.vars else "no\n")
            out.append("if defined %s (echo yes) else echo no" % shown)
        elif k < .96:
            self.mark(out, "program", set(self.vars.values()))
            out.append('"%s"' % self.probe)
        else:
            self.mark(out, "full listing", set(self.vars.values()))
            out.append("set")

    def store(self, name, v):
        f = low(name)
        self.vars[f] = (self.vars[f][0] if f in self.vars else name, v)

    def body(self, out, depth, n):
        for _ in range(n):
            self.op(out, depth)

    def call(self, out, depth):
        """The callee's code is generated at the point of the call, so the model runs it in order."""
        r = self.r
        self.ncall += 1
        i = self.ncall
        sub = []
        self.stacks.append([])
        as_file = r.random() < .35
        outer = self.subs                  # labels called from a file are looked up in that file
        if as_file:
            self.subs = []
        self.body(sub, depth + 1, r.randrange(1, 9))
        inner, self.subs = self.subs, outer
        st = self.stacks.pop()
        if st:
            # pending SETLOCALs end with the callee
            self.vars, self.delayed = st[0]
        if as_file:
            out.append("call sub%d.bat" % i)
            self.files["sub%d.bat" % i] = "\n".join(sub + r.choice([["exit /b 0"], ["goto :eof"]] + ([] if inner else [[]])) +
                                                    inner) + "\n"
        else:
            out.append("call :sub%d" % i)
            self.subs += [":sub%d" % i] + sub + [r.choice(["exit /b 0", "goto :eof"])]

    def script(self, probe, initial):
        self.probe = probe
        for n, v in initial:
            self.store(n, v)
        out = ["@echo off"]
        self.mark(out, "program", set(self.vars.values()))
        out.append('"%s"' % probe)
        self.mark(out, "full listing", set(self.vars.values()))
        out.append("set")
        if self.big:
            r = self.r
            many = [self.name() for _ in range(r.choice([130, 260, 300]))]
            for n in many:
                out.append("set %s=%s" % (n, "v" + n))
                self.store(n, "v" + n)
            r.shuffle(many)
            for n in many[:r.randrange(len(many))]:
                out.append("set %s=" % n)
                self.vars.pop(low(n), None)
            self.names += r.sample(many, 20)
        self.body(out, 0, self.budget)
        self.mark(out, "program", set(self.vars.values()))
        out.append('"%s"' % probe)
        self.mark(out, "full listing", set(self.vars.values()))
        out.append("set")
        out.append("echo @#%d#" % len(self.expect))
        out.append("exit /b 0")
        return "\n".join(out + self.subs) + "\n"


def parse_listing(text, tracked):
    """Pairs of a SET listing; values hold no newline."""
    res = set()
    for l in text.split("\n")[:-1]:
        n, _, v = l.partition("=")
        res.add((n, v))
    return res


def check():
    c = Check("P03", "exploration", "one evaluation is one observation (expansion, listing, IF DEFINED, environment of a "
              "program) in a random history of SET, SETLOCAL, ENDLOCAL and CALL on the real interpreter, compared "
              "with a map model; distinct by observation and state of the model",
              ["names are compared without case for ASCII letters only; values hold no newline and are not empty",
               "SET /P with empty input is not generated"])
    bindirs = {"plain": build.build("plain"), "asan": build.build("asan")}
    probe = build.helper("probe")
    n = c.n(800, 12000)

    def one(i):
        r = c.rng(i)
        w = World(r, big=(i % 12 == 0))
        init = []
        seen = set()
        for nm in r.sample(w.names, min(len(w.names), r.choice([0, 2, 5]))):
            if low(nm) not in seen:
                seen.add(low(nm))
                init.append((nm, "".join(r.choice(WILD) for _ in range(r.choice([1, 5, 30])))))
        text = w.script(probe, init)
        variant = "asan" if i % 6 == 0 else "plain"
        d = c.arena.case_dir(dict(w.files, **{"t.bat": text}))
        env = run.base_env(PROBE="E")
        env.update(dict(init))
        res = c.run([bat.pbat(bindirs[variant]), "t.bat"], d, env=env, timeout=30)
        c.arena.drop(d)
        return w, text, init, res, variant

    for i, (w, text, init, res, variant) in c.pmap(one, range(n)):
        rep = {"script": text, "files": w.files, "environment": init, "result": res.brief(), "variant": variant}
        if res.timeout:
            c.violation("hang", "the script did not end", rep)
            continue
        if res.crashed or res.sanitizer():
            c.violation("crash:%s" % (res.sanitizer() or res.rc), "the interpreter crashed", rep)
            continue
        got = bat.outputs(res.out)
        foreign = {}
        for m, (kind, exp) in enumerate(w.expect):
            g = got.get(m)
            if isinstance(exp, set):
                key = (kind, tuple(sorted(exp)))
                if g is None:
                    ok, shown = False, None
                elif kind == "program":
                    pairs = set()
                    for l in g.split("\n")[:-1]:
                        a, _, b = bytes.fromhex(l[4:]).decode("utf-8", "surrogateescape").partition("=")
                        pairs.add((a, b))
                    if m == 0:
                        foreign[kind] = pairs - exp
                    shown = pairs
                    ok = pairs == exp | foreign[kind]
                elif kind == "full listing":
                    pairs = parse_listing(g, None)
                    if m == 1:
                        foreign[kind] = pairs - exp
                    shown = pairs
                    ok = pairs == exp | foreign[kind] and len(g.split("\n")) - 1 == len(pairs)
                else:
                    pairs = parse_listing(g, None)
                    shown = pairs
                    p = None
                    extra = pairs - exp
                    # variables that were there from the start may share the prefix
                    ok = exp <= pairs and extra <= foreign.get("full listing", set())
                what = "%s shows %r instead of %r" % (kind, sorted(shown - exp) if shown is not None else None,
                                                      sorted(exp - shown) if shown is not None else sorted(exp))
            else:
                key = (kind, exp)
                ok = g == exp
                what = "%s gives %r instead of %r" % (kind, g, exp)
            c.saw(key, sample={"kind": kind, "expected": repr(exp)[:200]}, **{kind: 1})
            if not ok:
                c.violation("%s:%s" % (kind, "missing" if g is None else "differs"), what,
                            dict(rep, observation=m, expected=sorted(exp) if isinstance(exp, set) else exp, got=g))
                break
    c.finish(min_eval=100)


main(check)
