"""P02: what ECHO, SET and started programs see of a line is what the manual's expansion rules give."""
import os, re
from vt.check import Check, main
from vt import build, run, bat

TAME = "abcXYZ019._-+/@#:;,' "
LIT = "abcdefgXYZ0123456789._-+/[]{}@#$;,='*?: \t"
WILD = "".join(chr(c) for c in range(32, 127)) + "\t"
MB = ["é", "ß", "漢", "字", "🙂", "Ω", "ÿ", "\u00a0"]
ESC = "&|<>^!%()\"\\ax;"
NAMES = ["v", "V1", "foo", "Foo_bar", "x.y", "long_variable_name_with_42_chars_in_it_ok", "aé", "n-m", "q(r)", "z@"]
UNDEF = ["undefd", "No_Such", "vv"]


def rand_case(r, s):
    return "".join(c.upper() if r.random() < .5 and c.isascii() else c.lower() if r.random() < .5 and c.isascii() else c
                   for c in s)


def value(r, wild):
    n = r.choice([1, 2, 3, 5, 8, 13, 20, 40])
    if r.random() < .03:
        n = r.choice([255, 256, 257, 511, 1023, 1024, 1025, 4000])
    if not wild:
        s = "".join(r.choice(TAME) for _ in range(n))
    else:
        s = "".join(r.choice(MB) if r.random() < .06 else r.choice(WILD) for _ in range(n))
        if r.random() < .2:                # looks like something to expand or run again
            s += r.choice(["%v%", "!v!", "%%", "!!", "^^", "^", "& echo hacked", "> file", "| more", "%1", "%~f0", "!",
                           "%", '"', "^&", "(", ")", "%i"])
    return s


class Line:
    """Builds one line's text and the text it must give."""

    def __init__(self, r, env, delayed, for_body=False):
        self.r, self.env, self.delayed, self.for_body = r, env, delayed, for_body
        self.src, self.exp, self.kinds = "", "", []

    def add(self, src, exp, kind):
        self.src += src
        self.exp += exp
        self.kinds.append(kind)

    def lit(self):
        r = self.r
        s = "".join(r.choice(LIT) for _ in range(r.randrange(0, 9)))
        if r.random() < .1:
            s += r.choice(MB)
        self.add(s, s, "literal")

    def escape(self):
        c = self.r.choice(ESC)
        if self.for_body and c == "%":
            c = "&"
        if c == "%":
            self.add("^%", "%", "escape")   # an escaped % starts nothing
        elif c == "!":
            # an escaped ! does not start an expansion
            self.add("^!", "!", "escape")
        else:
            self.add("^" + c, c, "escape")

    def pick(self, delim):
        r = self.r
        if r.random() < .12:
            return r.choice(UNDEF), None
        names = [n for n in self.env if delim == "!" or self.env[n][1]]
        if not names:
            return r.choice(UNDEF), None
        n = r.choice(names)
        return n, self.env[n][0]

    def var(self, delim):
        r = self.r
        name, val = self.pick(delim)
        shown = rand_case(r, name)
        k = r.randrange(8)
        fit = k >= 4
        body, out, kind = shown, val or "", "value" if val is not None else "undefined"
        if k < 3 and val is not None and val.isascii():
            n = len(val)
            b = r.choice([0, 1, n // 2, n - 1, n, r.randrange(0, n + 1), -1, -n, -(n // 2) - 1, -r.randrange(1, n + 1)])
            b = max(-n, min(n, b))
            start = b if b >= 0 else n + b
            rest = n - start
            if r.random() < .3:
                body, out, kind = "%s:~%d" % (shown, b), val[start:], "substring"
            else:
                l = r.choice([0, 1, rest, r.randrange(0, rest + 1), -rest, -r.randrange(0, rest + 1), -1, -(rest // 2)])
                l = max(-rest, min(rest, l))
                end = start + l if l > 0 else start if l == 0 else n + l
                body, out, kind = "%s:~%d,%d" % (shown, b, l), val[start:end], "substring"
        elif k < 5 and val is not None:
            i = r.randrange(len(val))
            pat = val[i:i + r.randrange(1, 4)]
            if r.random() < .2:
                pat = "".join(r.choice("abcxyz019_") for _ in range(2))
            rep = "".join(r.choice("abcXYZ019._-éß =,:~") for _ in range(r.choice([0, 1, 2, 5, 30])))
            if (not re.search(r"[\x00-\x1f!%^=~\"&|<>()*]", pat) and
                    [m.start() for m in re.finditer(re.escape(pat), val)] ==
                    [m.start() for m in re.finditer(re.escape(pat), val, re.I)]):
                body, out, kind = "%s:%s=%s" % (shown, pat, rep), val.replace(pat, rep), "replacement"
        elif k == 5:
            d = "".join(r.choice("abcXYZ019._-") for _ in range(r.randrange(1, 6)))
            body, out, kind = "%s:%s" % (shown, d), d if val is None else val, "default"
        elif k == 6 and val is None:
            body = shown + r.choice([":~0,2", ":~-1", ":a=b"])
        src = delim + body + delim
        if delim == "!" and not self.delayed:
            # exclamation marks are ordinary text
            if re.search(r"[\"^&|<>()]", body):
                return
            out, kind = src, "not-delayed"
        self.add(src, out, ("%s" if delim == "%" else "!%s!") % kind)

    def build(self):
        r = self.r
        for _ in range(r.choice([1, 2, 3, 5, 8])):
            k = r.random()
            if k < .25:
                self.lit()
            elif k < .35:
                self.escape()
            elif k < .40:
                if not self.for_body:
                    self.add("%%", "%", "%%")
            elif k < .45:
                if self.delayed:
                    self.add("!!", "!", "!!")
            elif k < .65:
                self.var("%")
            else:
                self.var("!")
        return self


def scenario(r, probe):
    env, osenv = {}, {}
    for n in r.sample(NAMES, r.randrange(2, 7)):
        wild = r.random() < .65
        if any(c in n for c in "()") and not wild:
            wild = True                     # such a name only between exclamation marks... and never in a block
        v = value(r, wild)
        env[n] = (v, not wild)
        osenv[n] = v
    # names with parentheses cannot be written in a line without being taken for blocks
    env = {n: x for n, x in env.items() if "(" not in n} or {"v": ("tame", True)}
    for n, x in env.items():
        osenv[n] = x[0]
    lines, expect = ["@echo off"], []
    delayed = True
    depth = 0
    for i in range(r.randrange(4, 14)):
        k = r.random()
        m = len(expect)
        if k < .08 and depth < 3:
            delayed = not delayed
            depth += 1
            lines.append("setlocal %sDelayedExpansion" % ("Enable" if delayed else "Disable"))
            continue
        lines.append("echo @#%d#" % m)
        if k < .50:
            l = Line(r, env, delayed).build()
            lines.append("echo [%s]" % l.src)
            expect.append(("echo", l.kinds, "[%s]\n" % l.exp, lines[-1]))
        elif k < .62:
            l = Line(r, env, delayed).build()
            lines.append("set w=[%s]" % l.src)
            if delayed:
                lines.append("echo !w!")
                expect.append(("set", l.kinds, "[%s]\n" % l.exp, lines[-2]))
            else:
                lines.append("set w")
                expect.append(("set", l.kinds, "w=[%s]\n" % l.exp, lines[-2]))
            lines.append("set w=")
        elif k < .80:
            l = Line(r, env, delayed).build()
            if '"' in l.src:
                lines.append("echo []")
                expect.append(("echo", [], "[]\n", "echo []"))
                continue
            lines.append('"%s" first "[%s]" last' % (probe, l.src))
            exp = "".join("arg %s\n" % a.encode("utf-8", "surrogateescape").hex()
                          for a in ("first", "[%s]" % l.exp, "last"))
            expect.append(("program", l.kinds, exp, lines[-1]))
        elif k < .90:
            # a block: percent signs when it is read, exclamation marks when each command runs
            new = "".join(r.choice("abcXYZ019._-") for _ in range(5))
            old = "".join(r.choice("abcXYZ019._-") for _ in range(4))
            lines += ["set b=%s" % old, "if 1==1 (", "  set b=%s" % new, "  echo [%b%][!b!]", ")", "set b="]
            expect.append(("block", ["%value", "!value!"], "[%s][%s]\n" % (old, new if delayed else "!b!"), lines[-3]))
        else:
            l = Line(r, env, delayed, for_body=True).build()
            if re.search(r"[()]", l.src):
                lines.append("echo []")
                expect.append(("echo", [], "[]\n", "echo []"))
                continue
            lines.append("for %%%%q in (one) do echo [%%%%q %s]" % l.src)
            expect.append(("for", l.kinds, "[one %s]\n" % l.exp, lines[-1]))
    lines.append("echo @#%d#" % len(expect))
    return osenv, lines, expect


def fixed(cwd):
    """Built-in variables."""
    return ["@echo off", "echo @#0#", "echo [%CD%][!cd!]", "echo @#1#", "set /a n=%RANDOM%+0*!random!",
            "if !n! geq 0 (echo ok) else echo bad", "echo @#2#", "exit /b 2>nul & echo x", "echo @#3#"]


def check():
    c = Check("P02", "exploration", "one evaluation is one line of a script run on the real interpreter, whose output was "
              "compared with the reference expansion of the line; distinct by line and variable values",
              ["texts the manual leaves open are not generated: unpaired delimiters, negative positions before the "
               "start, lengths past the end, patterns differing in case only",
               "substrings only of ASCII values (the manual warrants no more without UTF-8 builds)"])
    bindirs = {"plain": build.build("plain"), "asan": build.build("asan")}
    probe = build.helper("probe")
    n = c.n(3000, 40000)

    def one(i):
        r = c.rng(i)
        osenv, lines, expect = scenario(r, probe)
        variant = "asan" if i % 5 == 0 else "plain"
        d = c.arena.case_dir({"t.bat": "\n".join(lines) + "\n"})
        res = c.run([bat.pbat(bindirs[variant]), "t.bat"], d, env=run.base_env(PROBE="a", **osenv), timeout=30)
        c.arena.drop(d)
        return osenv, lines, expect, res, variant

    for i, (osenv, lines, expect, res, variant) in c.pmap(one, range(n)):
        rep = {"script": "\n".join(lines) + "\n", "environment": osenv, "result": res.brief(), "variant": variant}
        if res.timeout:
            c.violation("hang", "the script did not end", rep)
            continue
        if res.crashed or res.sanitizer():
            c.violation("crash:%s" % (res.sanitizer() or res.rc), "the interpreter crashed", rep)
            continue
        got = bat.outputs(res.out)
        for m, (where, kinds, exp, line) in enumerate(expect):
            c.saw((line, sorted(osenv.items())), sample={"line": line, "expect": exp[:200]} if len(line) < 200 else None,
                  **{"in " + where: 1})
            for k in kinds:
                c.count("element " + k)
            if got.get(m) != exp:
                kk = "+".join(sorted(set(kinds)))
                c.violation("%s:%s" % (where, kk), "line %r must give %r, gave %r" % (line, exp, got.get(m)),
                            dict(rep, line=line, expected=exp, got=got.get(m)))
    c.finish(min_eval=100)


main(check)
