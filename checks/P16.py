"""P16: FIND, MORE, TYPE, WC and XARGS give exactly what the content of their input determines."""
import itertools, re
from vt.check import Check, main
from vt import build, run, bat

CWD = "/@D@"
WORDS = ["a", "bc", "def", "x1", "alpha", "Beta", "GAMMA", "été", "naïve", "日本", "ß", "🙂", "foo-bar", "a.b", "k,l",
         "m;n", "(p)", "q=r", "s&t", "u|v", "<w>", "100", "0", "-", "--", "a'b", "#1", "$x", "@y", "[z]", "{0}", "~", "a*b", "what?", "/c", "/v", "\\"]
SEPS = [" ", " ", " ", "  ", "\t", ",", ".", ";", ", ", ". "]


# ---------------------------------------------------------------- the models
def find(text, needle, o):
    """(output, status) or None if undecided"""
    out, hits = [], 0
    for k, l in enumerate(lines(text), 1):
        if not needle:
            hit = False
        elif o["e"]:
            hit = bat.rmatch(needle, l, o["i"])
            if hit is None:
                return None
        else:
            hit = (needle.lower() in l.lower()) if o["i"] else needle in l
        if hit != o["v"]:
            hits += 1
            out.append("[%d]%s\n" % (k, l) if o["show"] == "n" else l + "\n")
    if o["show"] == "c":
        out = ["%d\n" % hits]
    return "".join(out), 0 if hits else 1


def lines(text):
    ls = text.split("\n")
    if ls[-1] == "":
        ls.pop()
    return ls


def counts(text, sw):
    b = text.encode()
    v = {"L": text.count("\n"), "W": len([w for w in re.split(r"[ \t\r\n,.;]+", text) if w]), "C": len(b), "M": len(text)}
    return [v[k] for k in "LWCM" if k in (sw or "C")]


def more(text, squeeze=False, tab=8, u8=True, ansi=True, skip=0):
    """Rows of 79 columns; a tab reaching beyond the row ends it."""
    src = text if u8 else text.encode().decode("latin-1")
    rows, cur, col, i, n, blank = [], "", 0, 0, len(src), False
    while i < n:
        c = src[i]
        if c == "\t":
            blank = False
            w = tab - col % tab
            if col + w <= 79:
                cur += " " * w
                col += w
                i += 1
            else:
                i += 1
                if src[i:i + 1] == "\n":
                    i += 1
                rows.append(cur + "\n")
                cur, col = "", 0
        elif ansi and c == "\x1b":
            m = re.compile(r"\x1b(\[[^@-~]*[@-~]?|.)?", re.S).match(src, i)
            cur += m.group()
            i = m.end()
        elif c == "\n":
            i += 1
            if not col and blank and squeeze:
                continue
            blank = not col
            rows.append(cur + "\n")
            cur, col = "", 0
        elif col >= 79:
            rows.append(cur + "\n")
            cur, col = "", 0
        else:
            blank = False
            cur += c
            col += 1
            i += 1
    rows.append(cur)
    out = "".join(rows[skip:])
    return out if u8 else out.encode("latin-1").decode("utf-8", "surrogateescape")


# ---------------------------------------------------------------- the cases
def gen_line(r):
    k = r.random()
    if k < 0.12:
        return ""
    if k < 0.2:
        return r.choice(["x", "ab", "é", "日"]) * r.choice([1, 38, 77, 78, 79, 80, 157, 158, 159, 237, 400])
    if k < 0.25:
        return r.choice(WORDS) * r.choice([1, 40]) + r.choice(["\t", " ", "\t\t"]) * r.choice([1, 2, 20])
    l = "".join(r.choice(WORDS) + r.choice(SEPS) for _ in range(r.choice([1, 1, 2, 3, 5, 12, 30])))
    return l if r.random() < 0.3 else l.rstrip(" \t,.;") + r.choice(["", "", "."])


def gen_text(r):
    n = r.choice([0, 1, 2, 3, 5, 8, 20])
    t = "".join(gen_line(r) + "\n" * r.choice([1, 1, 1, 1, 2, 4]) for _ in range(n))
    return t.rstrip("\n") if r.random() < 0.25 else t


def name(r, used):
    while True:
        s = r.choice(["f", "g g", "é", "n;m", "x.txt", "long name.dat", "A", "p+q", "v=w"]) + r.choice(["", "1", "2", ".t", ".u"])
        if s.lower() not in used:
            used.add(s.lower())
            return s


def quote(r, s):
    return '"%s"' % s if re.search(r"[ ;,\t&|<>()^]", s) or r.random() < 0.2 else s


def needle(r, text, e):
    ls = [l for l in lines(text) if l] or ["a"]
    l = r.choice(ls)
    if e:
        s = l if len(l) < 60 else l[:30] + "*"
        k = r.random()
        for _ in range(r.choice([1, 1, 2, 3])):
            i = r.randrange(len(s) + 1)
            j = min(len(s), i + r.choice([0, 1, 1, 3, 8]))
            if r.random() < 0.65:
                s = s[:i] + "*" + s[j:]
            else:
                s = s[:i] + "?" + s[i + 1:]
        if k < 0.15:
            s = r.choice(["*", "*" + l[-3:], l[:3] + "*", "*" + l[len(l) // 2:len(l) // 2 + 2] + "*", "?" * r.choice([1, 2, 3])])
    else:
        i = r.randrange(len(l))
        s = l[i:i + r.choice([1, 1, 2, 3, 6, 60])]
        if r.random() < 0.15:
            s += "q"
    if r.random() < 0.3:
        s = s.swapcase() if s.isascii() else s
    s = re.sub(r'["%!^\t]', "", s).strip()
    if re.fullmatch(r"/[cnive?]?", s, re.I) or s == "":
        s = "a"
    return s


class Case:
    """Statements of a script with their expected output and error output."""

    def __init__(self, r, probe):
        self.r, self.files, self.used, self.s, self.exp = r, {}, set(), [], []
        self.probe = probe

    def file(self, text=None):
        n = name(self.r, self.used)
        self.files[n] = gen_text(self.r) if text is None else text
        return n

    def via(self, cmd, n):
        """Statement giving the content of file n to cmd on its standard input; the text it sees."""
        r, t = self.r, self.files[n]
        k = r.randrange(4)
        if k == 0:
            return "%s < %s" % (cmd, quote(r, n)), t
        if k == 1:
            return "type %s | %s" % (quote(r, n), cmd), t
        if k == 2 and "\n" in t and not t.startswith("\n"):
            return "(set /p q=>nul& %s) < %s" % (cmd, quote(r, n)), t.split("\n", 1)[1]
        return "(%s) < %s" % (cmd, quote(r, n)), t

    def several(self, cwd):
        """(argument text, lists of names (the alternatives of order))"""
        r = self.r
        args, alts = [], [[]]
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            k = r.random()
            if k < 0.2:
                stem = "w%d_" % len(self.used)
                ns = [stem + x for x in r.sample(["a", "b.x", " c", "é"], r.choice([1, 2, 3]))]
                for n in ns:
                    self.used.add(n)
                    self.files[n] = gen_text(r)
                args.append(quote(r, stem + "*"))
                alts = [a + list(p) for a in alts for p in itertools.permutations(ns)]
                if len(alts) > 40:
                    return None
            else:
                n = self.file() if k < 0.8 or not alts[0] else r.choice(alts[0])
                n = n.rsplit("/", 1)[-1]
                a = n if r.random() < 0.8 else cwd + "/" + n
                args.append(quote(r, a))
                alts = [x + [a] for x in alts]
        return " ".join(args), alts

    def add(self, stmt, outs, errs=None, status=None):
        """outs: list of alternatives (output, error output or None)"""
        k = len(self.exp)
        self.s.append("echo @#%d#" % k)
        self.s.append(stmt + (" 2>e%d" % k if errs else ""))
        if status is not None:
            self.s.append("echo st=!errorlevel!")
            outs = [(o + "st=%d\n" % status, e) for o, e in outs]
        self.exp.append((stmt, outs, bool(errs)))

    def step(self, cwd):
        r = self.r
        kind = r.choice(["find", "find", "find", "wc", "wc", "type", "more", "more", "xargs", "xargs"])
        full = lambda n: n if n.startswith("/") else cwd + "/" + n
        text = lambda n: self.files[n.rsplit("/", 1)[-1]]
        if kind == "find":
            o = {"e": r.random() < 0.4, "i": r.random() < 0.35, "v": r.random() < 0.3, "show": None}
            sw = ["/" + x for x in "eiv" if o[x]]
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                sw.append(r.choice(["/c", "/n"]))
            r.shuffle(sw)
            for x in sw:
                o["show"] = x[1] if x[1] in "cn" else o["show"]
            sw = [x.upper() if r.random() < 0.3 else x for x in sw]
            multi = r.random() < 0.4
            got = self.several(cwd) if multi else None
            n = None if got else self.file()
            nd = needle(r, text(got[1][0][0]) if got else self.files[n], o["e"])
            q = nd.replace('"', '^"')
            q = '"%s"' % q if re.search(r"[ ;,\t&|<>()]", q) or r.random() < 0.4 else q
            if r.random() < 0.04:
                nd, q = "", '""'
            if got:
                res = []
                for alt in got[1]:
                    each = [find(text(a), nd, o) for a in alt]
                    if None in each:
                        return
                    out = "".join("---------- %s\n%s" % (full(a), e[0]) if len(alt) > 1 else e[0] for a, e in zip(alt, each))
                    res.append((out, None))
                    st = 1 if any(e[1] for e in each) else 0
                a = "find %s %s %s" % (" ".join(sw), q, got[0]) if r.random() < 0.7 else "find %s %s %s" % (q, " ".join(sw), got[0])
                self.add(a, res, status=None if len(alt) > 1 else st)
            elif r.random() < 0.5:
                stmt, t = self.via("find %s %s" % (" ".join(sw), q), n)
                e = find(t, nd, o)
                if e:
                    self.add(stmt, [(e[0], None)], status=e[1])
            else:
                e = find(self.files[n], nd, o)
                if e:
                    self.add("find %s %s %s" % (" ".join(sw), q, quote(r, n)), [(e[0], None)], status=e[1])
        elif kind == "wc":
            sw = "".join(x for x in "LWCM" if r.random() < 0.45)
            opt = ["/" + (x.lower() if r.random() < 0.5 else x) for x in sw]
            r.shuffle(opt)
            cmd = " ".join(["wc"] + opt)
            if r.random() < 0.5:
                stmt, t = self.via(cmd, self.file())
                self.add(stmt, [("".join("%d " % v for v in counts(t, sw)) + "\n", None)])
            else:
                got = self.several(cwd)
                if not got:
                    return
                res = []
                for alt in got[1]:
                    cs = [counts(text(a), sw) for a in alt]
                    out = "".join("".join("%d " % v for v in c) + a + "\n" for a, c in zip(alt, cs))
                    if len(alt) > 1:
                        out += "".join("%d " % sum(x) for x in zip(*cs)) + "Total\n"
                    res.append((out, None))
                self.add(cmd + " " + got[0], res, status=0)
        elif kind == "type":
            if r.random() < 0.4:
                stmt, t = self.via("type", self.file())
                self.add(stmt, [(t, None)])
            else:
                got = self.several(cwd)
                if not got:
                    return
                res = []
                for alt in got[1]:
                    res.append(("".join(text(a) for a in alt),
                                "".join("---------- %s\n" % full(a) for a in alt) if len(alt) > 1 else ""))
                self.add("type " + got[0], res, errs=True)
        elif kind == "more":
            o = {"squeeze": r.random() < 0.4, "u8": r.random() < 0.85, "ansi": r.random() < 0.8}
            sw = [x for x, on in (("/S", o["squeeze"]), ("/U", not o["u8"]), ("/A", not o["ansi"]), ("/E", r.random() < 0.2)) if on]
            if r.random() < 0.4:
                o["tab"] = r.choice([1, 2, 3, 4, 5, 8, 10, 16, 79, 80, 100])
                sw.append("/T%s%d" % (r.choice([":", ""]), o["tab"]))
            t = gen_text(r)
            if r.random() < 0.3:
                for _ in range(r.choice([1, 3])):
                    i = r.randrange(len(t) + 1)
                    t = t[:i] + r.choice(["\x1b[0m", "\x1b[1;31m", "\x1b7", "\x1b[2K"]) + t[i:]
            if r.random() < 0.25 and all(len(l.encode()) < 40 and "\t" not in l for l in lines(t)) and not o["squeeze"]:
                o["skip"] = r.choice([1, 2, 3, 10])
                sw.append("+%d" % o["skip"])
            r.shuffle(sw)
            cmd = " ".join(["more"] + sw)
            if r.random() < 0.6:
                stmt, t = self.via(cmd, self.file(t))
                self.add(stmt, [(more(t, **o), None)])
            else:
                ns = [self.file(t)] + [self.file() for _ in range(r.choice([0, 0, 1, 2]))]
                if "skip" in o and len(ns) > 1:
                    ns = ns[:1]
                self.add("%s %s" % (cmd, " ".join(quote(r, n) for n in ns)), [("".join(more(self.files[n], **o) for n in ns), None)])
        else:
            if r.random() < 0.7:
                # the arguments an external program gets
                ws = []
                for _ in range(r.choice([0, 1, 2, 5, 40])):
                    w = gen_line(r).strip(" \t;,") if r.random() < 0.8 else r.choice(
                        ["!v!", "a!v!b", "%v%", "%%h", "^x", "a^^b", "!", "^", "a&b", "a|b c", "(", ")", ">o", "<i", 'q"r', 'q"r s', "1 2>x",
                         "-n", "2>&1", "~", "*", "f*", "$v", "`a`", "a'b c'd", "\\"])
                    if w and len(w) < 300:
                        ws.append(w)
                n = self.file("".join(w + "\n" for w in ws))
                pre = r.choice([[], ["x"], ["a b", "c"]])
                stmt, t = self.via(" ".join(["xargs", '"%s"' % self.probe] + [quote(r, p) for p in pre]), n)
                exp = pre + [w for w in lines(t) if w]
                exp = [w[1:-1] if re.fullmatch(r'"[^"]*"', w) else w for w in exp]
                self.add(stmt, [("".join("arg %s\n" % w.encode().hex() for w in exp), None)])
            else:
                ns = [self.file(gen_text(r) or "x") for _ in range(r.choice([1, 2, 3]))]
                n = self.file("\n".join(ns) + r.choice(["", "\n"]))
                k = r.choice(["wc", "type"])
                if k == "wc":
                    self.add("xargs wc /l < %s" % quote(r, n), [("".join("%d %s\n" % (self.files[x].count("\n"), x) for x in ns) + (
                        "%d Total\n" % sum(self.files[x].count("\n") for x in ns) if len(ns) > 1 else ""), None)])
                else:
                    self.add("type %s | xargs type" % quote(r, n), [("".join(self.files[x] for x in ns),
                             "".join("---------- %s\n" % full(x) for x in ns) if len(ns) > 1 else "")], errs=True)


def fn():
    c = Check("P16", "exploration", "distinct: hash of the statement with its expected output; nontrivial: the output is not empty",
              ["lines holding NUL or CR are outside the domain, and so are expressions that the manual's rule for * and its "
               "general meaning decide differently", "MORE writes rows of 79 columns; its interaction with a terminal is not "
               "part of this property"])
    bins = {v: build.build(v) for v in ("plain", "asan")}
    probe = build.helper("probe")
    env = run.base_env(PROBE="a")

    def one(i):
        r = c.rng(i)
        v = "asan" if i % 5 == 4 else "plain"
        k = Case(r, probe)
        for _ in range(12):
            k.step(CWD)
        s = "@echo off\nsetlocal enabledelayedexpansion\nset v=VALUE\n" + "\n".join(k.s) + "\necho @#9999#\n"
        d2 = c.arena.case_dir(dict(k.files, **{"t.bat": "@exit\n"}))
        with open(d2 + "/t.bat", "w") as fh:
            fh.write(s.replace(CWD, d2))
        res = c.run([bat.pbat(bins[v]), "t.bat"], d2, env=env, timeout=30)
        errs = {}
        for j, (_, _, e) in enumerate(k.exp):
            if e:
                try:
                    errs[j] = open("%s/e%d" % (d2, j), "rb").read().decode("utf-8", "surrogateescape").replace(d2, CWD)
                except OSError:
                    errs[j] = None
        c.arena.drop(d2)
        got = {j: t.replace(d2, CWD) for j, t in bat.outputs(res.out).items()}
        return v, k, s, res, got, errs

    for i, (v, k, s, res, got, errs) in c.pmap(one, range(c.n(1500, 30000))):
        rep = {"script": s, "files": k.files, "variant": v, **res.brief()}
        if res.timeout or res.crashed or (v == "asan" and res.sanitizer()):
            c.violation("abnormal/%d" % i, "hang" if res.timeout else "signal %d" % -res.rc if res.crashed else res.sanitizer(), rep)
            continue
        for j, (stmt, outs, e) in enumerate(k.exp):
            o = got.get(j)
            verb = re.search(r"\b(find|wc|type|more|xargs)\b", re.sub(r"^type .*\| ", "", stmt)).group(1)
            c.saw((stmt, outs[0]), nontrivial=bool(outs[0][0] or outs[0][1]), **{verb: 1, "alternatives": len(outs) - 1, "asan": int(v == "asan")})
            if i == 1 and j < 3:
                c.samples.append({"statement": stmt[:200], "expected": outs[0][0][:200]})
            if not any(o == x and (not e or errs.get(j) == y) for x, y in outs):
                c.violation("%s/%d.%d" % (verb, i, j), "%s gives %r (errors %r) instead of %r (%r)" % (
                    stmt[:150], o and o[:300], errs.get(j), outs[0][0][:300], outs[0][1]), dict(rep, statement=stmt, got=o, exp=outs[:2]))
    c.finish(1000)


if __name__ == "__main__":
    main(fn)
