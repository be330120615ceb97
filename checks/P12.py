"""P12: what a started program observes of itself, against what the script gave it."""
import os
from vt.check import Check, main
from vt import build, run, bat

WORD = "abcXYZ019._-/@#~{}[]+$é日:*?"
INQ = WORD + "  ,;=&|<>()'"


def hexl(tag, s):
    return "%s %s" % (tag, s.encode("utf-8", "surrogateescape").hex())


class Case:
    """One script; self.exp maps marker -> function(output text) -> None or what is wrong."""

    def __init__(self, r, probe, root):
        self.r, self.probe, self.root = r, probe, root
        self.lines, self.exp, self.n, self.kinds = ["@echo off"], {}, 0, []
        self.cwd, self.env, self.base = ".", {}, None
        self.sub = []
        self.stderr = []
        self.nsub = 0

    # -- helpers
    def word(self):
        r = self.r
        k = r.random()
        if k < 0.45:                                   # free of quotes
            w = "".join(r.choice(WORD) for _ in range(r.choice([1, 1, 2, 3, 5, 9])))
            if r.random() < 0.15:
                c = r.choice("&|<>^")
                i = r.randrange(len(w) + 1)
                return w[:i] + "^" + c + w[i:], w[:i] + c + w[i:]
            if r.random() < 0.1 and len(w) > 2:
                w = w[0] + "=" + w[1:]
            return w, w
        if k < 0.9:                                    # wholly quoted
            w = "".join(r.choice(INQ) for _ in range(r.choice([0, 1, 2, 3, 6, 12])))
            return '"%s"' % w, w
        a, b = "".join(r.choice(WORD) for _ in range(2)), "".join(r.choice(INQ) for _ in range(3))
        w = '%s"%s"%s' % (a, b, r.choice(["", "z"]))   # quotes inside are kept
        return w, w

    def args(self, k=None):
        r = self.r
        ws = [self.word() for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12]) if k is None else k)]
        if ws and ws[0][0][:2] in ("/?", "1>", "2>"):
            ws[0] = ("x", "x")
        text = ""
        for t, _ in ws:
            text += r.choice([" ", " ", " ", "  ", ",", ";", " ,; ", "\t"]) + t
        return text, [v for _, v in ws]

    def name(self):
        """A way to name the probe that works from the current directory of the script."""
        r = self.r
        k = r.randrange(5)
        if k == 0:
            return self.probe
        if k == 1:
            return '"%s"' % self.probe
        if k == 2:
            return "pr"                                # found through PATH
        if k == 3:
            return "./pr" if self.cwd == "." else os.path.relpath("pr", self.cwd)
        return '"%s/pr"' % self.root

    def wrap(self, text):
        """Run the command in some context; the command holds no percent sign."""
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return "if 1==1 (%s)" % text
        if k == 1:
            return "for %%%%q in (1) do %s" % text
        if k == 2:
            return "(\n%s\n)" % text
        if k == 3:
            return "if 1==2 (echo no) else (%s)" % text
        if k == 4:
            self.nsub += 1
            self.sub += [":s%d" % self.nsub, text, "goto :eof"]
            return "call :s%d" % self.nsub
        return text

    def step(self, text, exp, kind):
        self.lines += ["echo @#%d#" % self.n, text]
        self.exp[self.n] = (kind, text, exp)
        self.n += 1
        self.kinds.append(kind)

    def same(self, exp):
        e = "".join(x + "\n" for x in exp)
        return lambda o: None if o == e else "expected %r, got %r" % (e[:600], o[:600])

    def probing(self, o):
        self.lines.append("set PROBE=%s" % o)

    # -- steps
    def do_args(self):
        t, vs = self.args()
        self.probing("a")
        k = self.r.random()
        if k < 0.12:
            b = self.r.choice(["start /b /wait", "start /wait /b", "start /b /w", "start /min /b /wait", "start /wait"])
            ttl = self.r.choice(['"t"', '"a b"', '""'])
            n = self.name()
            self.step("%s %s %s%s" % (b, ttl, n, t), self.same([hexl("arg", v) for v in vs]), "start")
        elif k < 0.3 and "^" not in t:
            # CALL runs programs too, and expands what is left to expand
            n = self.r.choice([0, 0, 1, 2])
            self.lines.append("set cv=one two")
            t += " x%%cv%%y" * n
            vs = vs + ["xone", "twoy"] * n
            self.step(self.wrap("call " + self.name() + t), self.same([hexl("arg", v) for v in vs]), "called")
            self.lines.append("set cv=")
        else:
            self.step(self.wrap(self.name() + t), self.same([hexl("arg", v) for v in vs]), "arguments")

    def do_env(self):
        r = self.r
        self.probing("E")
        for _ in range(r.choice([0, 1, 2, 4])):
            v = r.choice(["v1", "v2", "LONG", "é", "with space", "V1", "PATHX"])
            k = [x for x in self.env if x.lower() == v.lower()]
            if r.random() < 0.25 and k:
                self.lines.append("set %s=" % v)
                del self.env[k[0]]
            elif r.random() < 0.2:
                if not self.saved:
                    self.lines.append("setlocal")
                    self.saved.append(dict(self.env))
                else:
                    self.lines.append("endlocal")
                    self.env = self.saved.pop()
            else:
                x = r.choice(["1", "a b", "日本", "x" * 900, " lead", "a=b;c", "'q' \"r\" &|<>" if False else "tail.",
                              "C:\\dir\\", "=eq"])
                self.lines.append("set %s=%s" % (v, x))
                self.env[k[0] if k else v] = x

        want = {k.lower(): v for k, v in self.env.items()}

        def judge(o):
            got, names = {}, []
            for l in o.split("\n"):
                if l.startswith("env "):
                    n, _, v = bytes.fromhex(l[4:]).decode("utf-8", "surrogateescape").partition("=")
                    names.append(n)
                    got[n.lower()] = v
            if len(set(names)) != len(names):
                return "a variable was given twice: %r" % sorted(names)
            got.pop("path", None)
            got.pop("z", None)
            if self.base is None:
                self.base = {k: v for k, v in got.items() if k not in want}
                for k, v in self.given.items():
                    if k.lower() not in ("path", "probe") and k.lower() not in want and got.get(k.lower()) != v:
                        return "the variable %s of pbat was not passed on" % k
            exp = dict(self.base, **want)
            if got != exp:
                d = {k: (exp.get(k), got.get(k)) for k in set(exp) | set(got) if exp.get(k) != got.get(k)}
                return "variables (expected, got): %r" % str(d)[:800]

        self.step(self.name(), judge, "environment")

    def do_cwd(self):
        r = self.r
        d = r.choice(["d1", "d1/d2", "d1/d2/d3", "sp ace", "."])
        self.probing("c")
        k = r.random()
        here = self.cwd
        full = os.path.normpath(os.path.join(self.root, d))
        if k < 0.35:
            n = r.choice(['"%s/pr"' % self.root, "pr"])
            self.step('start /b /wait /d "%s" "t" %s' % (os.path.relpath(d, here), n), self.same([hexl("cwd", full)]), "directory")
            return
        if k < 0.7:
            self.lines.append('cd "%s"' % os.path.relpath(d, here))
            self.cwd = d
            self.step(self.wrap(self.name()), self.same([hexl("cwd", full)]), "directory")
        else:
            self.lines.append('pushd "%s"' % os.path.relpath(d, here))
            self.cwd = d
            n = self.name()
            self.step(self.wrap(n), self.same([hexl("cwd", full)]), "directory")
            self.lines.append("popd")
            self.cwd = here
            self.step(self.name(), self.same([hexl("cwd", os.path.normpath(os.path.join(self.root, here)))]), "directory")

    def do_code(self):
        r = self.r
        sig = r.random() < 0.15
        n = r.choice([15, 9, 1, 13, 14, 10]) if sig else r.choice([0, 0, 1, 2, 127, 128, 129, 254, 255, r.randrange(256)])
        self.probing("k" if sig else "q")
        bad = sig or n != 0
        k = r.randrange(4)
        cmd = "%s %d" % (self.name(), n)
        if r.random() < 0.15:
            cmd = 'start /b /wait "t" ' + cmd
        if k == 0:
            self.step("%s\necho [%%errorlevel%%]" % self.wrap(cmd),
                      (lambda o: None if o.strip() not in ("[0]", "") else "killed by signal %d, but error level %r" % (n, o)) if sig
                      else self.same(["[%d]" % n]), "signals" if sig else "exit codes")
        elif k == 1:
            self.step("%s && echo ok" % cmd, self.same([] if bad else ["ok"]), "signals" if sig else "exit codes")
        elif k == 2:
            self.step("%s || echo failed" % cmd, self.same(["failed"] if bad else []), "signals" if sig else "exit codes")
        elif sig:
            self.step("%s\nif errorlevel 1 echo failed" % cmd, self.same(["failed"]), "signals")
        else:
            m = r.choice([n, n + 1, max(n - 1, 0), 1])
            self.step("%s\nif errorlevel %d echo yes" % (cmd, m), self.same(["yes"] if n >= m else []), "exit codes")

    def do_stdin(self):
        r = self.r
        ls = ["".join(r.choice("abc é%x!^\"&") for _ in range(r.choice([0, 1, 5, 40]))) + "_%d" % i for i in range(r.choice([1, 2, 5, 200, 3000]))]
        data = "\n".join(ls) + r.choice(["", "\n"])
        f = "in%d.txt" % self.n
        self.files[f] = data
        p = os.path.relpath(f, self.cwd)
        self.probing("i")
        k = r.randrange(4)
        if k == 0:
            text, rest = "%s < \"%s\"" % (self.name(), p), data
        elif k == 1:
            text, rest = "type \"%s\" | %s" % (p, self.name()), None
        elif k == 2:
            # the program reads on where the commands before it stopped
            m = r.randrange(min(len(ls), 4))
            text = "(%s%s) < \"%s\"" % ("set /p z= & " * m, self.name(), p)
            rest = "\n".join(data.split("\n")[m:])
        else:
            text, rest = "%s < nul" % self.name(), ""
            text = text.replace("nul", "/dev/null")

        def judge(o):
            got = b"".join(bytes.fromhex(l.strip()[3:]) for l in o.split("\n") if l.strip().startswith("in "))
            want = data if rest is None else rest
            if rest is None and not want.endswith("\n") and got == want.encode() + b"\n":
                return
            if got != want.encode():
                return "expected %d bytes %r, the program read %d bytes %r" % (len(want.encode()), want[:200], len(got), got[:200])
        self.step(text, judge, "standard input")

    def do_order(self):
        """What commands and programs write to the same file stays in order."""
        r = self.r
        self.probing("a")
        parts, exp = [], []
        for i in range(r.choice([2, 3, 6, 10])):
            if r.random() < 0.5:
                w = "w%d" % r.randrange(1000)
                parts.append("echo %s" % w)
                exp.append(w)
            else:
                t, vs = self.args(r.choice([1, 2]))
                parts.append(self.name() + t)
                exp += [hexl("arg", v) for v in vs]
        k = r.randrange(3)
        f = "o%d.txt" % self.n
        p = os.path.relpath(f, self.cwd)
        body = "(\n%s\n)" % "\n".join(parts)
        if k == 0:
            self.step(body, self.same(exp), "order")
        elif k == 1:
            self.step("%s > \"%s\"\ntype \"%s\"" % (body, p, p), self.same(exp), "order")
        else:
            self.step("%s | %s" % (body, "/bin/cat"), lambda o: None, "order")
            self.exp[self.n - 1] = ("order", body, self.same(exp))

    def do_streams(self):
        r = self.r
        self.probing("at")
        t, vs = self.args(r.choice([1, 2]))
        err = " ".join(vs)
        a, b = "a%d.txt" % self.n, "b%d.txt" % self.n
        p, q = os.path.relpath(a, self.cwd), os.path.relpath(b, self.cwd)
        k = r.randrange(4)
        n = self.name()
        if k == 0:
            self.step('%s%s > "%s" 2> "%s"\ntype "%s"\necho -\ntype "%s"' % (n, t, p, q, p, q),
                      self.same([hexl("arg", v) for v in vs] + ["-", err]), "streams")
        elif k == 1:
            self.step('%s%s 2> "%s" > nul\ntype "%s"' % (n, t, q, q), self.same([err]), "streams")
        elif k == 2:
            self.step('%s%s 2>&1 | /bin/cat' % (n, t),
                      lambda o: None if sorted(o.split("\n")) == sorted([hexl("arg", v) for v in vs] + [err, ""])
                      else "expected both streams, got %r" % o[:500], "streams")
        else:
            self.step('%s%s >> "%s" 2>&1\n%s%s >> "%s" 2>&1\ntype "%s"' % (n, t, p, n, t, p, p),
                      lambda o: None if sorted(o.split("\n")) == sorted(2 * ([hexl("arg", v) for v in vs] + [err]) + [""])
                      else "expected both streams, got %r" % o[:500], "streams")

    def do_clean(self):
        """Nothing but the three streams is inherited, no signal is ignored, nothing is left unwaited for."""
        r = self.r
        self.probing("fsz")
        if r.random() < 0.5:
            self.lines.append(r.choice(["./notexec 2> nul", "start /b /wait \"t\" %s" % self.name(),
                                        "nosuchprogram 2> nul", "./notexec 2> nul || %s > nul" % self.name(),
                                        "for /f %%a in ('echo x') do (%s > nul)" % self.name()]))
            if self.lines[-1].startswith("start"):
                self.lines[-1] += " > nul"
        k = r.randrange(6)
        n = self.name()
        text = [n, "echo x | %s" % n, "%s | /bin/cat" % n, "echo x > x1.txt & (%s) < x1.txt 2> e1.txt" % n,
                "for /f \"delims=\" %%%%a in ('%s') do echo %%%%a" % n, "(echo x | %s | /bin/cat)" % n][k]
        if k == 4 and '"' in n:
            text = n
        if self.cwd != ".":
            text = text.replace("x1.txt", '"%s/x1.txt"' % self.root).replace("e1.txt", '"%s/e1.txt"' % self.root)

        def judge(o):
            ls = [l for l in o.split("\n") if l]
            fds = [int(l.split()[1]) for l in ls if l.startswith("fd ")]
            if fds != [0, 1, 2]:
                return "descriptors %r are open" % fds
            ign = [l for l in ls if l.startswith("SigIgn")]
            if ign != ["SigIgn:\t0000000000000000"]:
                return "ignored signals: %r" % ign
            if k in (0, 3) and "zombies 0" not in ls:
                return "processes are left: %r" % ls[-1:]
        self.step(text, judge, "inheritance")

    def do_find(self):
        """PATH, the current directory first, extensions, folders and files that can not be executed."""
        r = self.r
        self.probing("a")
        k = r.randrange(6)
        here = self.cwd
        back = lambda: None
        if k == 0:                                      # the first directory of PATH having it
            ds = r.sample(["p1", "p2", "p3", "empty"], 3)
            rel = r.random() < 0.3
            self.lines.append("setlocal & set PATH=%s" % ":".join(os.path.relpath(d, here) if rel else "%s/%s" % (self.root, d) for d in ds))
            first = next(d for d in ds if d != "empty")
            self.step("who a", self.same([first]), "search")
            self.lines.append("endlocal")
        elif k == 1:                                    # the current directory goes first
            self.lines.append('pushd "%s"' % os.path.relpath("p1", here))
            self.lines.append("setlocal & set PATH=%s/p2" % self.root)
            self.step("who", self.same(["p1"]), "search")
            self.lines += ["endlocal", "popd"]
        elif k == 2:                                    # a folder of that name is no program
            self.lines.append('pushd "%s"' % os.path.relpath("dirs", here))
            self.lines.append("setlocal & set PATH=%s/p2" % self.root)
            self.step("who", self.same(["p2"]), "search")
            self.lines += ["endlocal", "popd"]
        elif k == 3:                                    # not found: an error, nothing is run
            self.step("%s x 2> nul && echo ok || echo failed" % r.choice(["nosuchprogram", "./nosuch", "nosuch/who", "/nonexistent/who", "dirs"]),
                      self.same(["failed"]), "search")
        elif k == 4:                                    # can not be executed
            p = os.path.relpath("notexec", here)
            self.step("%s x 2> nul && echo ok || echo failed" % (p if "/" in p else "./" + p), self.same(["failed"]), "search")
        else:                                           # scripts are found as well, also with their extension left out
            self.lines.append("setlocal & set PATH=%s/p1:%s/p3" % (self.root, self.root))
            ext = r.random() < 0.5
            if not ext:
                self.lines.append("set PATHEXT=.bat:.cmd")
            c = r.choice(["", "call "])
            self.step("%sscr%s one" % (c, ".bat" if ext else ""), self.same(["scr one"]), "search")
            self.lines.append("endlocal")

    def do_pipe(self):
        """Programs on all sides of pipes, running at the same time."""
        r = self.r
        k = r.choice([1, 2, 3, 5])
        ls = ["l%d é" % i for i in range(r.choice([1, 50, 2000]))]
        f = "in%d.txt" % self.n
        self.files[f] = "\n".join(ls) + "\n"
        self.lines.append("set PROBE=")
        chain = " | ".join(["/bin/cat"] * k)
        self.step("type \"%s\" | %s" % (os.path.relpath(f, self.cwd), chain), self.same(ls), "pipes")

    def do_document(self):
        """A file that is no program is handed, by its full path, to the script for documents, which gets what programs get."""
        r = self.r
        t, vs = self.args(r.choice([0, 1, 2, 4]))
        if "^" in t:
            t, vs = "", []
        rc = r.choice([0, 0, 1, 3, 200, 255])
        doc = r.choice(["x.txt", "notexec", "sp ace/d.odt"])
        here = os.path.normpath(os.path.join(self.root, self.cwd))
        n = '"%s"' % r.choice([os.path.relpath(doc, self.cwd), os.path.join(self.root, doc)])
        if "/" not in n:
            n = '"./%s"' % os.path.relpath(doc, self.cwd)
        out = "doc%d" % self.n
        q = os.path.relpath(out, self.cwd)
        where = here
        k = r.randrange(4)
        if k == 0:
            cmd = '%s "t" %s%s' % (r.choice(["start /b /wait", "start /wait", "start /wait /b"]), n, t)
        elif k == 1:
            d = r.choice(["d1", "d1/d2", "sp ace"])
            n = '"%s"' % os.path.join(self.root, doc)
            where = os.path.join(self.root, d)
            cmd = 'start /wait /d "%s" "t" %s%s' % (os.path.relpath(d, self.cwd), n, t)
        elif k == 2:
            cmd = "call %s%s" % (n, t)
        else:
            cmd = n + t
        self.lines += ["setlocal", "set PBAT_START_SCRIPT=%s/ss" % self.root, "set DOCOUT=%s/%s" % (self.root, out),
                       "set DOCRC=%d" % rc]
        full = os.path.join(self.root, doc)
        exp = [hexl("arg", v) for v in [full] + vs] + [hexl("cwd", where)]

        def judge(want):
            def f(o):
                ls = o.split("\n")
                for j, l in enumerate(ls):
                    if l.startswith("arg "):
                        ls[j] = hexl("arg", os.path.normpath(bytes.fromhex(l[4:]).decode("utf-8", "surrogateescape")))
                        break
                return self.same(want)("\n".join(ls))
            return f
        if r.random() < 0.5:
            self.step('%s\necho [%%errorlevel%%]\ntype "%s"' % (cmd, q), judge(["[%d]" % rc] + exp), "documents")
        else:
            self.step('%s && echo ok\ntype "%s"' % (cmd, q), judge((["ok"] if rc == 0 else []) + exp), "documents")
        self.lines.append("endlocal")

    def build(self, given):
        r = self.r
        self.files, self.saved, self.given = {}, [], given
        f = [self.do_args] * 4 + [self.do_env, self.do_cwd, self.do_code, self.do_code, self.do_stdin, self.do_order,
                                  self.do_streams, self.do_clean, self.do_find, self.do_pipe, self.do_document]
        for _ in range(r.choice([3, 6, 10])):
            r.choice(f)()
        return "\n".join(self.lines + ["echo @#9999#", "goto :eof"] + self.sub) + "\n"


def fn():
    c = Check("P12", "exploration",
              "distinct: hash of the text of a step together with its kind; nontrivial: a program was started or refused",
              ["arguments that are wholly quoted lose the quotes, all others are passed as written",
               "the environment a script starts with is what its first program sees (checked to hold all that pbat was given)"])
    probe = build.helper("probe")
    given = {k: v for k, v in run.base_env(gIv="x y", GIVEN2="é=1").items()}

    def one(job):
        variant, b, i = job
        r = c.rng(variant, i)
        root = c.arena.next_dir()
        case = Case(r, probe, root)
        env = dict(given, PATH="%s/path:/bin:/usr/bin" % root)
        text = case.build(given)
        files = {"t.bat": text, "notexec": "no program\n", "sp ace/d.odt": "document\n",
                 "ss": "#!/bin/bash\nexport PROBE=ac\n%s \"$@\" > $DOCOUT\nexit $DOCRC\n" % probe, "x.txt": "x\n", **case.files}
        for p in ("p1", "p2", "p3"):
            files[p + "/who"] = "#!/bin/sh\necho %s\n" % p
            files[p + "/scr.bat"] = "@echo off\necho scr %1\n"
        def post(d):
            for p in ("p1", "p2", "p3"):
                os.chmod("%s/%s/who" % (d, p), 0o755)
            os.chmod(d + "/ss", 0o755)
            os.symlink(probe, d + "/pr")
            os.symlink(probe, d + "/path/pr")
        c.arena.case_dir(files, ("d1/d2/d3", "sp ace", "empty", "dirs/who", "path"), post, root)
        res = c.run([bat.pbat(b), "t.bat"], root, env=env, timeout=30)
        c.arena.drop(root)
        return case, text, res

    for variant, n in [("plain", c.n(1500, 15000)), ("asan", c.n(200, 2500))]:
        b = build.build(variant)
        for (_, _, i), (case, text, res) in c.pmap(one, [(variant, b, i) for i in range(n)]):
            for k in case.kinds:
                c.count(k)
            got = bat.outputs(res.out)
            bad = None
            if res.timeout:
                bad = "hang", "the script did not end"
            elif res.crashed or (variant != "plain" and res.sanitizer()):
                bad = "crash:%s" % res.sanitizer(), "crash or sanitizer report"
            for k, (kind, line, exp) in case.exp.items():
                c.saw((kind, line.replace(case.root, "~")), True,
                      sample={"kind": kind, "line": line} if (i + k) % 900 == 7 else None)
                if bad:
                    continue
                if k not in got:
                    bad = "lost", "the step %d was not reached" % k
                    continue
                w = exp(got[k])
                if w:
                    bad = kind, "%r: %s" % (line, w)
            if bad:
                c.violation("%s:%s/%d" % (bad[0], variant, i), bad[1], {"script": text, **res.brief(4000)})
    c.finish(100)


main(fn)
