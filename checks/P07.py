"""P07: traces of generated FOR loops against an independent implementation of the manual's rules."""
import re
from vt.check import Check, main
from vt import build, run, bat

WORDS = ["a", "bc", "def", "x1", "0", "-7", "é⌂", "w_w", "a.b", "K=V", "#h", "/s", "~t", "@m", "zz9"]
INT_MAX = 2147483647


def tokens(line, delims):
    out, i, n = [], 0, len(line)
    while i < n:
        while i < n and line[i] in delims:
            i += 1
        if i == n:
            break
        b = i
        while i < n and line[i] not in delims:
            i += 1
        out.append((b, i))
    return out


def pick(line, delims, spec):
    """spec: list of (first, last); last None is the rest of the line."""
    t = tokens(line, delims)
    out = []
    for a, z in spec:
        if a > len(t):
            out.append("")
        elif z is None or z > len(t):
            out.append(line[t[a - 1][0]:])
        else:
            out.append(line[t[a - 1][0]:t[z - 1][1]])
    return out


class Loop:
    """One FOR: head text, the rows of values of its variables, and whether the order of rows is unspecified."""

    def __init__(self, head, names, rows, unordered=False):
        self.head, self.names, self.rows, self.unordered = head, names, rows, unordered


class Gen:
    def __init__(self, r):
        self.r = r
        self.files, self.dirs, self.data = {}, [], {}
        self.cov = set()
        for d in r.sample(["sub", "sub/deep", "other", "d e"], r.randint(0, 3)):
            while "/" in d and d.rsplit("/", 1)[0] not in self.dirs:
                self.dirs.append(d.rsplit("/", 1)[0])
            if d not in self.dirs:
                self.dirs.append(d)
        for d in [""] + self.dirs:
            for n in r.sample(["one.txt", "two.txt", "three.c", "x", "a b.txt", "q.tar.gz", "UP.DAT"], r.randint(0, 4)):
                self.files[(d + "/" if d else "") + n] = b"z\n"
        self.ndata = 0
        self.ncmd = 0
        self.cmdly = False

    # -- the parts
    def word(self):
        return self.r.choice(WORDS)

    def simple(self, v, glob=True):
        r = self.r
        items, txt, unord = [], "", False
        n = r.choice([0, 1, 2, 3, 4, 6])
        k = r.randrange(n + 1) if glob and self.files and r.random() < 0.3 else -1
        for i in range(n + 1):
            if i == k:
                pat, rx, d = r.choice([("*.txt", r".*\.txt", ""), ("*", r".*", ""), ("t*", r"t.*", ""), ("?", r".", ""),
                                       ("*.zip", r".*\.zip", ""), ("sub/*.txt", r".*\.txt", "sub/"),
                                       ("other/*", ".*", "other/"), ("?ne.txt", ".ne\\.txt", "")])
                hits = []
                for f in list(self.files) + ["t.bat"]:
                    p, b = f.rpartition("/")[::2]
                    if (p + "/" if p else "") == d and re.fullmatch(rx, b):
                        hits.append(f)
                items += hits
                unord = unord or len(hits) > 1
                txt += '"%s"' % pat if r.random() < 0.3 else pat
                self.cov.add("glob")
            elif i < n:
                w = self.word()
                if r.random() < 0.3:
                    w = '"%s"' % r.choice([w + " " + self.word(), w, "", "a;b", "c,d:e", "(f", "g)", "h&i|j", " "])
                    if r.random() < 0.2:
                        w = self.word() + w + self.word()
                    self.cov.add("quoted item")
                items.append(w)
                txt += w
            else:
                break
            if i < n:
                txt += r.choice([" ", " ", ",", ";", ":", "\t", "  ", ", ", " ; ", ":,", "::"] + (["\n"] if n < 5 else []))
        if r.random() < 0.2:
            txt = r.choice([" ", ",", ":", "; "]) + txt
        return Loop("%%%%%s in (%s)" % (v, txt), [v], [[i] for i in items], unord)

    def count(self, v):
        r = self.r
        form = r.randrange(5)
        if form == 0:
            a, s, z = r.randint(-9, 9), r.randint(1, 4), r.randint(-9, 12)
        elif form == 1:
            a, s, z = INT_MAX - r.randint(0, 5), r.choice([1, 2, 3, 1000, INT_MAX]), INT_MAX - r.randint(0, 2)
        elif form == 2:
            a, s, z = r.randint(-100, 100) * 7, r.randint(50, 300), r.randint(0, 1200)
        elif form == 3:
            a, s, z = -INT_MAX - 1 + r.randint(0, 3), r.choice([1, 2, INT_MAX]), -INT_MAX + r.randint(0, 4)
        else:
            a, z = r.randint(2, 9), r.randint(-9, 1)
            s = r.choice([1, -1, 0])
        f = lambda x: r.choice([str(x)] * 4 + (["0x%x" % x, "0%o" % x] if x >= 0 else []))
        txt = r.choice([",", " ", ", ", ";"]).join(f(x) for x in (a, s, z))
        self.cov.add("counted")
        return Loop("/L %%%%%s in (%s)" % (v, txt), [v], [[str(i)] for i in range(a, z + 1, s)] if s > 0 else [])

    def options(self, v, limit=7):
        """(text, delims, eol, skip, spec)"""
        r = self.r
        parts = []
        delims, eol, skip, spec = " \t", ";", 0, [(1, 1)]
        chosen = [o for o in ("tokens", "delims", "eol", "skip") if r.random() < (0.75 if o == "tokens" else 0.35)]
        r.shuffle(chosen)
        if r.random() < 0.1 and chosen:
            chosen.append(chosen[0])
        eolset = False
        for o in chosen:
            if o == "tokens":
                spec, t = [], []
                for _ in range(r.choice([1, 1, 2, 2, 3])):
                    k = r.randrange(6)
                    n = r.choice([1, 1, 2, 2, 3, 4, 6])
                    if k <= 1:
                        t.append(str(n))
                        spec.append((n, n))
                        last = n
                    elif k == 2:
                        p = n + r.randint(0, 3)
                        t.append("%d-%d" % (n, p))
                        spec += [(i, i) for i in range(n, p + 1)]
                        last = p
                        self.cov.add("n-p")
                    elif k == 3:
                        p = n + r.randint(0, 3)
                        t.append("%d.%d" % (n, p))
                        spec.append((n, p))
                        last = p
                        self.cov.add("n.p")
                    elif k == 4:
                        t.append("%d.*" % n)
                        spec.append((n, None))
                        self.cov.add("n.*")
                        break
                    else:
                        t.append("%d*" % n)
                        spec += [(n, n), (n + 1, None)]
                        self.cov.add("n*")
                        break
                else:
                    if r.random() < 0.25:
                        t.append("*")
                        spec.append((last + 1, None))
                        self.cov.add("n,*")
                if r.random() < 0.15:
                    t, spec = ["*"], [(1, None)]
                    self.cov.add("*")
                parts.append("tokens=" + ",".join(t))
            elif o == "delims":
                delims = r.choice([",", ":", ",;", ";", "=", "", ":,", "x", "ab", ".", "é"[:0] + "/", "-+", "\t", "\\"])
                self.cov.add("delims" if delims else "no delims")
                parts.append("delims=" + delims)
                if ";" in delims and not eolset:
                    eol = ""
            elif o == "eol":
                eolset = True
                eol = r.choice(["#", "", "#a", "@", "-"])
                self.cov.add("eol" if eol else "no eol")
                parts.append("eol=" + eol)
            else:
                skip = r.choice([0, 1, 1, 2, 3, 100])
                self.cov.add("skip")
                parts.append("skip=%d" % skip)
        text = ""
        if parts:
            if r.random() < 0.3:
                text = " ".join('"%s"' % p for p in parts)
                self.cov.add("several option parameters")
            else:
                text = " ".join(parts)
                # a blank that ends the options belongs to the delimiters
                if parts[-1].startswith("delims=") and r.random() < 0.5:
                    text += " "
                    delims += " "
                    self.cov.add("blank delimiter")
                text = '"%s"' % text
        if len(spec) > limit:
            spec = spec[:limit]
            return self.options(v, limit)
        return text, delims, eol, skip, spec

    def line(self, rich):
        r = self.r
        if r.random() < 0.12:
            return ""
        s = ""
        for i in range(r.choice([1, 2, 3, 5, 8])):
            s += self.word() if not rich or r.random() < 0.6 else "".join(
                r.choice("abx019-+=.,;:/\\@#~é &|<>()'\"%`[]{}*?") for _ in range(r.randint(1, 5)))
            s += r.choice([" ", " ", "  ", ",", ";", ":", ":", ", ", "=", "x", "\t", ""])
        if r.random() < 0.2:
            s = r.choice([" ", ";", "#", "@", "  ", ",", "-"]) + s
        return s

    def lines(self, rich, n=None):
        return [self.line(rich) for _ in range(self.r.choice([0, 1, 2, 3, 4, 7]) if n is None else n)]

    def filef(self, v, rich=True):
        r = self.r
        kind = r.choice(["file", "file", "files", "cmd", "cmd2", "string", "string", "usebackq", "missing"])
        if not rich and kind == "missing":
            kind = "file"
        text, delims, eol, skip, spec = self.options(v)
        opt = (text + " ") if text else ""

        def newfile(ls, nl=True):
            n = "../d/data%d.dat" % self.ndata
            self.ndata += 1
            b = "\n".join(ls) + ("\n" if nl and ls else "")
            if not nl and ls and ls[-1] == "":
                b += "q"
                ls[-1] = "q"
            self.data[n] = b.encode()
            return n
        self.cov.add("/F " + kind)
        if kind in ("file", "files"):
            ls, names = [], []
            for _ in range(1 if kind == "file" else r.randint(2, 3)):
                l = self.lines(rich)
                names.append(newfile(l, r.random() < 0.8))
                ls += l
            obj = " ".join(names)
        elif kind == "missing":
            l = self.lines(rich)
            n = newfile(l)
            ls, obj = r.choice([([], "nofile.dat"), ([], "nofile.dat " + n), (l, n + " nofile.dat")])
        elif kind == "string":
            ls = [re.sub(r"[^\w.,:;= \t/@#~-]", "", self.line(False))]
            obj = '"%s"' % ls[0]
            if not ls[0]:
                ls = []
        elif kind == "usebackq":
            if r.random() < 0.5:
                ls = [re.sub(r"[^\w.,:;= \t/@#~-]", "", self.line(False))]
                obj = "'%s'" % ls[0]
                if not ls[0]:
                    ls = []
            else:
                ls = [re.sub(r"[^\w.:= /@#~-]", "", self.line(False)) or "w"]
                obj = "`echo(%s`" % ls[0] if False else "`type %s`" % newfile(ls)
            # as the last thing the options are read from, it must not become part of a set of characters
            opt = '"usebackq" ' + opt
        elif kind == "cmd":
            ls = self.lines(rich)
            obj = "'type %s'" % newfile(ls)
        else:
            ls = [" ".join(self.word() for _ in range(r.randint(1, 5))) for _ in range(r.randint(1, 4))]
            sep = r.choice(["\n", "&", " & ", "&&"])
            cmds = [("echo %s" % l) for l in ls]
            if sep != "\n":
                # ECHO prints the blank before an operator
                cmds = [c for c in cmds]
                if sep.startswith(" "):
                    ls = [l + " " for l in ls]
            # what the command does to the variables stays there
            cmds.append("set leak=1")
            obj = "'%s'" % sep.join(cmds)
        rows, i = [], 0
        for l in ls:
            if self.cmdly and not l.strip(" \t;,"):
                continue
            i += 1
            if i <= skip or (l and l[0] in eol):
                continue
            rows.append(pick(l, delims, spec))
        names = [chr(ord(v) + k) for k in range(len(spec))]
        return Loop("/F %s%%%%%s in (%s)" % (opt, v, obj), names, rows)

    def tree(self, v):
        r = self.r
        isdir = r.random() < 0.4
        base = r.choice([".", ""] + self.dirs[:2])
        pat, rx = r.choice([("*", ".*"), ("*.txt", r".*\.txt"), ("t*", "t.*"), ("d*", "d.*")])
        hits = []
        for f in (self.dirs if isdir else list(self.files) + ["t.bat"]):
            p, b = f.rpartition("/")[::2]
            if base not in (".", ""):
                if not f.startswith(base + "/"):
                    continue
            if re.fullmatch(rx, b):
                hits.append(f if base != "." else "./" + f)
        self.cov.add(("/D" if isdir else "/R") + (" " + base if base in (".", "") else " dir"))
        if base and (" " in base or r.random() < .3):
            base = '"%s"' % base
        return Loop("/%s %s%s%%%%%s in (%s)" % ("D" if isdir else "R", base, " " if base else "", v, pat), [v], [[h] for h in hits], True)


def fn():
    c = Check("P07", "exploration",
              "distinct: hash of the loop's text together with its expected trace; nontrivial: the body runs at least "
              "once",
              ["values holding ^ or ! are outside the domain (expanded again when the body runs)",
               "of a loop over several matching files or a directory tree the order is not specified; its trace is "
               "compared as a multiset"])

    def unit(g, depth, avail, cmdly):
        """(lines of script, list of expected lines, unordered, variables used)"""
        r = g.r
        v = avail[0]
        kind = r.choice(["s", "s", "l", "f", "f", "f", "t"])
        # the files the data loops make would be seen by the others
        if kind == "s":
            lp = g.simple(v, glob=True)
        elif kind == "l":
            lp = g.count(v)
        elif kind == "t":
            # (with CMDLYCORRECT the recursive listing has absolute names)
            lp = g.simple(v) if cmdly else g.tree(v)
        else:
            lp = g.filef(v, rich=depth == 0 or r.random() < 0.5)
        if len(lp.rows) > 60:
            lp.rows = lp.rows[:0]
            return unit(g, depth, avail, cmdly)
        body, bexp, unord = [], None, lp.unordered
        show = "".join("[%%%%%s]" % n for n in lp.names)
        bare = kind in ("s", "t") and r.random() < 0.5
        tag = "t%d" % len(g.tags)
        g.tags.append(tag)
        prefix = "".join("<%%%%%s" % n for n in g.outer)     # the outer loops' variables are still there
        pe = prefix.replace("<", "{")
        body.append("echo %s%s%s%s" % (tag, pe, show, "[%%%%~%s]" % v if bare else ""))
        sub = None
        stop = None
        if depth < 2 and r.random() < (0.4 if depth == 0 else 0.25) and len(lp.rows) <= 12:
            out = g.outer
            g.outer = out + [v]
            sub = unit(g, depth + 1, avail[1:], cmdly)
            g.outer = out
            body += sub[0]
        elif depth == 0 and len(lp.rows) > 1 and not unord and r.random() < 0.25:
            stop = r.randrange(len(lp.rows))
            g.cov.add("goto out")
        cnt = None
        if stop is not None:
            cnt = "n%d" % len(g.tags)
            body += ['set /a %s+=1 > nul' % cnt, 'if !%s!==%d goto :L%s' % (cnt, stop + 1, tag)]

        def trace(env):
            o = []
            for k, row in enumerate(lp.rows):
                e = dict(env)
                e.update(zip(lp.names, row))
                s = tag + "".join("{" + env[n] for n in g_outer) + "".join("[%s]" % x for x in row)
                if bare:
                    x = row[0]
                    s += "[%s]" % (x[1:-1] if len(x) > 1 and x[0] == x[-1] == '"' else x)
                o.append(s)
                if sub:
                    o += sub[1](e)
                if stop is not None and k == stop:
                    break
            return o
        g_outer = list(g.outer)
        one = len(body) == 1 and "\n" not in lp.head and r.random() < 0.5
        if one:
            g.cov.add("one line")
            ls = ["for %s do %s" % (lp.head, body[0])]
        else:
            ls = ["for %s do (" % lp.head] + ["  " + b for b in body] + [")"]
        if stop is not None:
            ls = ["set %s=0" % cnt] + ls + ["echo not reached", ":L" + tag]
        if sub and sub[2]:
            unord = True
        if depth:
            g.cov.add("nested")
        return ls, trace, unord, lp

    def script(i, variant, cmdly):
        r = c.rng(variant, i)
        g = Gen(r)
        g.tags, g.outer = [], []
        g.cmdly = cmdly
        lines = ["@echo off"] + (["setlocal cmdlycorrect"] if cmdly else [])
        exp = []
        for n in range(r.choice([1, 2, 3, 4])):
            avail = r.choice(["ahov", "AHQX", "CKbr", "1;?g"[:0] + "elsz"])
            g.outer = []
            ls, trace, unord, lp = unit(g, 0, list(avail), cmdly)
            lines.append("echo @#%d#" % n)
            lines += ls
            # the variables are gone, and the next line runs
            gone = "".join("%%%%%s" % x for x in lp.names[:3])
            lines.append("echo after %s %%leak%%" % gone)
            exp.append((n, "\n".join(ls), trace({}) + ["after %s " % gone.replace("%%", "%")], unord))
        # a variable in use is not assigned again, whichever of the loop's variables it is
        n = len(exp)
        k = r.randint(1, 4)
        w = [r.choice("pqrst") + str(j) for j in range(6)]
        v = r.choice("BKb")
        first = chr(ord(v) - r.randint(0, k))
        st = 'for %%%%%s in (%s) do (for /f "tokens=1-%d" %%%%%s in ("%s") do echo never\necho kept %%%%%s)' % (
            v, w[0], k + 1, first, " ".join(w), v)
        lines += ["echo @#%d#" % n, st, "echo after"]
        exp.append((n, st, ["kept " + w[0], "after"], False))
        st = 'for /f "tokens=1-%d" %%%%} in ("%s") do echo {%%%%}}{%%%%#}' % (r.choice([6, 7]), " ".join(w))
        lines += ["echo @#%d#" % (n + 1), st, "echo after {%%}}{%%#}"]
        exp.append((n + 1, st, ["{%s}{%s}" % (w[0], w[5]), "after {%}}{%#}"], False))
        lines.append("echo @#9999#")
        globs = any(e[3] for e in exp)
        return "\n".join(lines) + "\n", exp, g, globs

    for variant, n in [("plain", c.n(2500, 40000)), ("asan", c.n(350, 5000))]:
        b = build.build(variant)

        def one(i):
            cmdly = i % 7 == 3
            text, exp, g, globs = script(i, variant, cmdly)
            # data files live outside the current directory, where no loop over files sees them
            files = {"w/" + k: v for k, v in g.files.items()}
            files.update((k[3:], v) for k, v in g.data.items())
            files["w/t.bat"] = text
            d = c.arena.case_dir(files, ["w/" + x for x in g.dirs])
            res = c.run([bat.pbat(b), "t.bat"], d + "/w", env=run.base_env())
            c.arena.drop(d)
            return text, exp, g, res, cmdly

        for i, (text, exp, g, res, cmdly) in c.pmap(one, range(n)):
            for k in g.cov:
                c.count(k)
            bad = None
            if res.timeout:
                bad = ("hang", "the script did not end")
            elif res.crashed or res.rc or (variant != "plain" and res.sanitizer()):
                bad = ("crash:%s:%s" % (res.rc, res.sanitizer()), "crash, exit status or sanitizer report")
            else:
                got = bat.outputs(res.out)
                for k, st, o, unord in exp:
                    c.saw((st, tuple(o)), len(o) > 1, sample={"loop": st, "trace": o} if i % 500 == 7 else None)
                    m = got.get(k)
                    gl = None if m is None else m.split("\n")[:-1]
                    if gl is not None and unord:
                        same = sorted(gl) == sorted(o)
                    else:
                        same = gl == o
                    if not same:
                        bad = ("trace", "%s\nexpected %r\ngot      %r" % (st, o, gl))
                        break
            if bad:
                c.violation("%s:%s/%d" % (bad[0].split(":")[0], variant, i), bad[1],
                            {"script": text, "files": {k: v for k, v in g.data.items() if k in text}, "names": list(g.files), **res.brief(4000)})
    c.finish(100)


main(fn)
