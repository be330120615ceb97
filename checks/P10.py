"""P10: a pipe hands over everything, in order and once, and its left side leaves the caller's state alone."""
import os, re, zlib
from vt.check import Check, main
from vt import build, run, bat


def lines(tag, n, l):
    out = []
    for j in range(n):
        b = "%s%d:" % (tag, j)
        while len(b) < l:
            b += chr(97 + (j + len(b)) % 26)
        out.append(b)
    return out


def text(ls):
    return "".join(x + "\n" for x in ls)


class Gen:
    def __init__(self, r, big):
        self.r, self.big = r, big
        self.n = 0
        self.files = {}
        self.subs = []
        self.quit = False        # some stage stops reading early
        self.touch = []          # state changes made in left sides
        self.delayed = r.random() < .6   # delayed expansion stays on in both sides

    def tag(self):
        self.n += 1
        return "t%dx" % self.n

    def volume(self):
        r = self.r
        k = r.random()
        if k < .6:
            return r.randint(0, 6), r.choice([0, 0, 20, 200])
        if k < .9 or not self.big:
            return r.randint(50, 400), r.choice([30, 100, 300])
        return r.randint(1000, 3000), r.choice([100, 300])

    # every source and filter: (text of the command, function of the input lines)
    def source(self, d=1):
        r = self.r
        k = r.random()
        t = self.tag()
        if k < .3:
            n, l = self.volume()
            return "%%e%% %sg:%d:%d:%s" % (r.choice(["", "", "t:1 "]), n, l, t), lines(t, n, l)
        if k < .45:
            n, l = self.volume()
            f = "f%d.txt" % len(self.files)
            ls = lines(t, n, l)
            self.files[f] = text(ls)
            return ("type " if n else "%e% c <") + f, ls
        if k < .55:
            n = r.choice([1, 3, 30, 300])
            pad = "p" * r.choice([1, 50])
            return "(for /l %%%%i in (1,1,%d) do @echo %s%%%%i%s)" % (n, t, pad), ["%s%d%s" % (t, i, pad) for i in range(1, n + 1)]
        if k < .65:
            n, l = self.volume()
            i = len(self.subs)
            self.subs.append("%%e%% g:%d:%d:%s" % (n, l, t))
            return "call :s%d" % i, lines(t, n, l)
        if k < .75:
            if self.delayed and r.random() < .7:
                # what was set before is seen from within, by delayed expansion too
                return r.choice(["(echo %s!v0!)", "(set w=!v0!& echo %s!w!)", "(for %%%%w in (1) do echo %s!v0!)",
                                 "(if 1==1 echo %s%%v0%%)"]) % t, [t + "zero"]
            return "(echo %s)" % t, [t]
        if d > 0:
            parts = [self.source(d - 1) for _ in range(r.randint(2, 3))]
            cmds = [p[0] for p in parts]
            out = [x for p in parts for x in p[1]]
            if r.random() < .3:
                fc, ff = self.filter(0)
                if r.random() < .5:
                    cmds = ["(%s) | %s" % (" & ".join(cmds), fc)]
                    out = ff(out)
            for _ in range(r.choice([0, 1, 1, 2])):
                c = self.state()
                cmds.insert(r.randint(0, len(cmds)), c)
            if r.random() < .12:
                cmds.append(r.choice(["exit 9", "exit /b 8", "exit"]))
                self.touch.append(cmds[-1])
            return "(" + r.choice([" & ", "\n"]).join(cmds) + ")", out
        return "(echo %s)" % t, [t]

    def state(self):
        """Something that changes the state of the instance it runs in, and prints nothing."""
        r = self.r
        c = r.choice(["set v1=changed", "set v1=", "set v2=changed", "set new=1", "cd %b%/sub", "pushd %b%/sub", "setlocal",
                      "set /a v3=77", "shift", "shift", "cd nonexist 2>nul.txt", "%e% x:41", "set v1=x& set v2=y",
                      "popd 2>nul2.txt"] + ["setlocal disabledelayedexpansion"] * (not self.delayed))
        self.touch.append(c)
        return c

    def filter(self, d=1):
        r = self.r
        k = r.random()
        if k < .3:
            return "%%e%% %sc" % r.choice(["", "", "t:1 "]), lambda x: x
        if k < .42:
            s = r.choice(["1", "x1", "x", "zzz", "t", "0:"])
            return "find %s" % s, lambda x, s=s: [y for y in x if s in y]
        if k < .5:
            s = r.choice(["1", "x1", "zzz"])
            return "find /v %s" % s, lambda x, s=s: [y for y in x if s not in y]
        if k < .58:
            return "more", lambda x: [y[j:j + 79] for y in x for j in range(0, len(y), 79)]
        if k < .66:
            i = len(self.subs)
            self.subs.append("%e% c")
            return "call :s%d" % i, lambda x: x
        if k < .74:
            h = r.randint(0, 4)
            return "(%%e%% h:%d & %%e%% c)" % h, lambda x: x
        if d > 0 and k < .92:
            c, f = self.filter(d - 1)
            q = r.random()
            if q < .3:
                c2, f2 = self.filter(d - 1)
                return "(%s | %s)" % (c, c2), lambda x: f2(f(x))
            t = self.tag()
            if q < .6:
                c = "(echo %s& %s)" % (t, c)
                return c, lambda x: [t] + f(x)
            if q < .8:
                return "(if 1==1 %s)" % c, f
            return "(%s& %s)" % (self.state(), c), f
        h = r.choice([0, 1, 2, 5])
        self.quit = True
        if h == 0:
            t = self.tag()
            return "(echo %s)" % t, lambda x: [t]
        return "%%e%% h:%d" % h, lambda x: x[:h]

    def last(self):
        """(command, function lines -> (what it prints, {variable: value}), error level)"""
        r = self.r
        k = r.random()
        if k < .5:
            def f(x):
                b = text(x).encode()
                return ["sum %d %d %08x" % (len(b), len(x), zlib.crc32(b))], {}
            q = r.random()
            if q < .6:
                c = r.choice([0, 0, 3])
                return "%%e%% # x:%d" % c, f, c
            if q < .8:
                return "(set right=%d& %%e%% #)" % self.n, lambda x, n=self.n: (f(x)[0], {"right": str(n)}), 0
            i = len(self.subs)
            self.subs.append("%e% #")
            return "call :s%d" % i, f, 0
        if k < .65:
            self.quit = True
            return "set /p right=", lambda x: ([], {"right": x[0]} if x and x[0] else None), None
        if k < .8:
            s = r.choice(["1", "x1", "x", "zzz"])
            return "find /c %s" % s, lambda x: None, "find:" + s
        if k < .92:
            return "%e% c", lambda x: (x, {}), 0
        self.quit = True
        return "rem", lambda x: ([], {}), 0


PROBE = "echo @[!v1!][!v2!][!v3!][!new!][!right!][!cd!][%~1][{el}]"


def make(r, big):
    g = Gen(r, big)
    out, exp = [], []
    right = ""
    for i in range(r.randint(2, 5)):
        src, ls = g.source()
        cmd = src
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            c, f = g.filter()
            cmd += r.choice([" | ", "|"]) + c
            ls = f(ls)
        c, f, el = g.last()
        res = f(ls)
        if isinstance(el, str):
            n = sum(el[5:] in x for x in ls)
            c, res, el = "find " + el[5:] , ([x for x in ls if el[5:] in x], {}), 0 if n else 1
            if len(ls) > 500:
                c, res, el = "%e% h:1 x:5", (ls[:1], {}), 5
                g.quit = True
        if res[1] is None:
            # nothing to read: what SET /P does then is not the matter here
            c, res, el = "rem", ([], {}), 0
            g.quit = True
        if len(res[0]) > 600:
            b = text(ls).encode()
            c, res, el = "%e% #", (["sum %d %d %08x" % (len(b), len(ls), zlib.crc32(b))], {}), 0
        cmd += r.choice([" | ", "|"]) + c
        k = r.random()
        times = 1
        if k < .15:
            times = r.choice([2, 3])
            cmd = "for %%%%q in (%s) do (%s)" % (" ".join("123"[:times]), cmd)
        elif k < .3:
            cmd = "(%s)" % cmd
        elif k < .4:
            cmd = "if 1==1 %s" % cmd
        # SET may keep the error level of before
        if c.startswith("set /p"):
            el = None
        out.append(cmd)
        el_t = "%errorlevel%" if el is not None else ""
        out.append(PROBE.replace("{el}", el_t))
        if "right" in res[1]:
            right = res[1]["right"]
        for _ in range(times):
            exp += res[0]
        exp.append("@[one][two][3][][%s][@CWD@][arg1][%s]" % (right, el if el is not None else ""))
    script = ["@echo off", "setlocal enabledelayedexpansion", "set v0=zero", "set v1=one", "set v2=two", "set /a v3=3", "set new=",
              "set right=", "call :main arg1 arg2", "echo @end", "goto :eof", ":main"] + out + ["goto :eof"]
    for i, s in enumerate(g.subs):
        script += [":s%d" % i, s, "goto :eof"]
    exp.append("@end")
    return dict(script="\n".join(script) + "\n", files=g.files, exp=exp, quit=g.quit, touch=g.touch)


def body():
    ck = Check("P10", "exploration",
               "a case is a script of pipelines whose complete output, files and state probes were compared; distinct by its text",
               ["a stage that stops reading early may make the stages before it report write errors"])
    bins = {v: build.build(v) for v in ("plain", "asan")}
    emit = build.helper("emit")
    env = run.base_env(e=emit)

    def one(i):
        r = ck.rng("c", i)
        case = make(r, i % 10 == 0)
        files = dict(case["files"], **{"t.bat": case["script"]})
        files.update({"sub/" + f: t for f, t in case["files"].items()})
        d = ck.arena.case_dir(files, dirs=("sub",))
        v = "asan" if i % 5 == 0 else "plain"
        res = ck.run([bat.pbat(bins[v]), "t.bat"], d, env=dict(env, b=d), timeout=40)
        ck.arena.drop(d)
        exp = [x.replace("@CWD@", d) for x in case["exp"]]
        got = [x.rstrip(" ") for x in res.out.decode("utf-8", "backslashreplace").split("\n")]
        if got and got[-1] == "":
            got.pop()
        bad = None
        if res.timeout:
            bad = ("hang", "the pipelines do not end")
        elif res.crashed:
            bad = ("signal", "ended by signal %d" % -res.rc)
        elif v == "asan" and res.sanitizer():
            bad = ("sanitizer:" + res.sanitizer(), "sanitizer report")
        elif got != exp:
            for a, b in zip(exp + [None] * len(got), got + [None] * len(exp)):
                if a != b:
                    bad = ("differs/%d" % i, "%s instead of %s" % (str(b)[:200], str(a)[:200]))
                    break
        elif not case["quit"]:
            err = res.err.decode("utf-8", "backslashreplace")
            err = re.sub(r"WARNING: ASan[^\n]*\n", "", err)
            if err.strip():
                bad = ("stderr/%d" % i, "error output: " + err[:200])
        return case, v, res, bad

    # a stage blocked on a full pipe must not hold anything its reader needs to go on
    busy = ["echo %%i {t}", "call echo %%i {t}", "set /a a=qq+ & echo {t}", "type big.txt", "echo.{t}& echo on& echo off",
            "if 1==1 echo {t}", "for %%q in (1 2) do echo %%q{t}", "call :say {t}", "cd no{t}", "find q big.txt", "dir /b"]

    def full(i):
        r = ck.rng("full", i)
        wr, rd = r.choice(busy), r.choice(busy)
        t = "w" * r.choice([60, 130])
        s = ("@echo off\n(for /l %%i in (1,1,{n}) do ({a})) 2>&1 | (for /l %%j in (1,1,{n}) do (set /p q=& {b})) 2>&1 | "
             "{c}\necho @end\ngoto :eof\n:say\necho %1\n").format(
                 n=r.choice([900, 1500]), a=wr.format(t=t), b=rd.format(t=t[:40]).replace("%%i", "%%j"),
                 c=r.choice(["find /c z", "%e% t:1 c | find /c z", "rem"]))
        d = ck.arena.case_dir({"t.bat": s, "big.txt": "".join("q%d %s\n" % (j, t) for j in range(20))})
        res = ck.run([bat.pbat(bins["plain"]), "t.bat"], d, env=env, timeout=60)
        ck.arena.drop(d)
        return s, res

    if ck.want("full"):
        for i, (s, res) in ck.pmap(full, range(ck.n(40, 800))):
            ck.saw(s, full_pipes=1)
            if res.timeout or b"@end" not in res.out:
                ck.violation("full/%d" % i, "the pipeline does not end" if res.timeout else "the script ended early",
                             {"script": s, **res.brief()})

    for i, (case, v, res, bad) in ck.pmap(one, range(ck.n(700, 15000)) if ck.want("pipes") else []):
        s = case["script"]
        ck.saw(s, scripts=1, pipes=s.count("|"), state_changes=len(case["touch"]), early_quit=int(case["quit"]),
               lines_compared=len(case["exp"]), **{"runs_" + v: 1})
        if i in (1, 2):
            ck.samples.append({"script": s[:700]})
        if bad:
            ck.violation(bad[0], bad[1], {"script": s, "files": case["files"], "exp": case["exp"][:50], "variant": v, **res.brief()})
    ck.finish(50)


if __name__ == "__main__":
    main(body)
