"""P15: DIR lists exactly the files its path, wildcards, attributes and switches select, with their properties."""
import datetime, os, posixpath, re
from vt.check import Check, main
from vt import build, run, bat, fscase
from vt.fsmodel import FS, Ambiguous, trivial


def fmt(n):
    """n: size in bytes, as DIR shows it: three digits of the number and its unit"""
    i, last = 0, 0
    while n >= 1000:
        last, n, i = n % 1000, n // 1000, i + 1
    u = ["o", "ko", "mo", "go"][i % 4]
    return "%d %s" % (n, u) if n >= 10 else "%d,%02d %s" % (n, last // 10, u)


class Gen:
    def __init__(self, r, nodes):
        self.r, self.fs = r, FS(nodes)
        self.cwd = "r"

    def wild(self, s):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            i = r.randrange(len(s) + 1)
            j = min(len(s), i + r.choice([0, 1, 2, 5, 60]))
            s = s[:i] + r.choice(["*", "*", "*", "?", "?*", "**"]) + s[j:] if r.random() < 0.6 else s[:i] + "?" + s[i + 1:]
        if r.random() < 0.3 and s.isascii():
            s = s.swapcase()
        return s

    def path(self):
        r = self.r
        ps = sorted(p for p in self.fs.n if p.startswith("r"))
        q = r.random()
        if q < 0.15:
            return r.choice([p for p in ps if self.fs.n[p][0] == "d"])
        p = r.choice(ps)
        if q < 0.25:
            return p
        if q < 0.3:
            return p + r.choice(["x", "/no", "/*"])
        if q < 0.55:
            d = r.choice([x for x in ps if self.fs.n[x][0] in "dl"])
            return d + "/" + r.choice(fscase.PATS)
        parts = p.split("/")
        for i in range(1, len(parts)):
            if r.random() < (0.35 if i < len(parts) - 1 else 0.9):
                parts[i] = r.choice(["*", self.wild(parts[i]), self.wild(parts[i]), self.wild(parts[i])])
        return "/".join(parts)

    def spell(self, p):
        r = self.r
        q = r.random()
        if q < 0.2:
            s = "%b%/" + p
        else:
            s = posixpath.relpath(p, self.cwd)
            if q < 0.3:
                s = "./" + s
            elif q < 0.4:
                s = "../" + self.cwd.rpartition("/")[2] + "/" + s
        if re.search(r"[ ;,&()]", s) or r.random() < 0.15:
            s = '"%s"' % s
        return s, q < 0.2

    def command(self):
        r = self.r
        b, s = r.random() < 0.7, r.random() < 0.35
        attr = ""
        sw = ["/b"] * b + ["/s"] * s
        if r.random() < 0.4:
            attr = "".join(r.choice(["-", ""]) + a for a in r.sample("DRI", r.choice([1, 1, 2, 3])))
            sw.append(r.choice(["/a:", "/a"]) + (attr.lower() if r.random() < 0.4 else attr))
        p, a, ab = None, [], False
        if r.random() < 0.9:
            p = self.path()
            t, ab = self.spell(p)
            a = [t]
        for x in sw:
            a.insert(r.randint(0, len(a)), x.upper() if r.random() < 0.25 else x)
        # without a path: everything in the current directory
        full = p if p is not None else self.cwd + "/*"
        got = self.fs.search(full, rec=s, dirmode=True, pseudo=False)
        got = [x for x in got if self.fs.selected(x, attr)]
        # the same file by two names of a directory (links)
        return {"cmd": " ".join(["dir"] + a), "exp": got, "b": b, "s": s, "abs": ab, "path": p}


def stats(fs, p):
    q = posixpath.normpath(p)
    x = fs.node(q)
    return x


def fn():
    c = Check("P15", "exploration", "distinct: hash of the command, its directory and the names it lists; nontrivial: it lists something",
              ["the order of a listing is that of the directory, which is not specified: listings are compared as multisets",
               "expressions that the manual's rule for * and its general meaning decide differently are outside the domain",
               "attributes H, S and A do not exist on this system"])
    bins = {v: build.build(v) for v in ("plain", "asan")}
    uid = run.UID if run.can_drop() else None

    def one(i):
        r = c.rng(i)
        nodes = fscase.tree(r, links=r.random() < 0.6)
        for p in [p for p in nodes if nodes[p][0] == "d" and p.startswith("r")]:
            if r.random() < 0.2:
                for _ in range(r.randint(1, 6)):
                    nodes[p + "/" + "".join(r.choice("abAB.-_é日~") for _ in range(r.randint(1, 7))).strip(".") + "z"] = ["f", b"x" * r.choice([0, 1, 99, 1234, 98765]), True]
        g = Gen(r, nodes)
        cmdly = r.random() < 0.4
        lines, cases = ["@echo off"] + (["setlocal cmdlycorrect"] if cmdly else []), []
        while len(cases) < 14:
            try:
                if r.random() < 0.3:
                    g.cwd = r.choice(sorted(p for p in nodes if nodes[p][0] == "d" and p.startswith("r")))
                k = g.command()
            except Ambiguous:
                continue
            k["cwd"] = g.cwd
            lines += ['cd "%b%/' + g.cwd + '"', "echo @#%d#" % len(cases), k["cmd"]]
            cases.append(k)
        s = "\n".join(lines) + "\necho @#9999#\n"
        times = {}

        def post(d):
            fscase.make(d, nodes, uid)
            for p in sorted(nodes, reverse=True):
                if nodes[p][0] != "l":
                    t = times[p] = r.randint(10 ** 8, 2 * 10 ** 9)
                    os.utime(os.path.join(d, p), (t, t))
        d = c.arena.case_dir({"t.bat": s}, post=post)
        v = "asan" if i % 6 == 5 else "plain"
        res = c.run([bat.pbat(bins[v]), "t.bat"], d, env=run.base_env(b=d, TZ="UTC", LC_ALL="C.UTF-8"), timeout=30)
        c.arena.drop(d)
        return v, d, nodes, times, cmdly, s, cases, res

    def judge(d, nodes, times, cmdly, k, out):
        """None or what is wrong"""
        fs = FS(nodes)
        canon = lambda p: posixpath.normpath(posixpath.join(d, k["cwd"], p))
        # names of a listing do not resolve links: the paths are compared as they are written
        exp = sorted(posixpath.normpath(posixpath.join(d, p)) for p in k["exp"])
        ls = out.split("\n")
        if ls.pop() != "":
            return "the listing does not end with a newline"
        names, rows = [], []
        if k["b"]:
            names = ls
        else:
            if len(ls) < 2 or ls[0] != "" or "\t" not in ls[1]:
                return "no header"
            if len(ls) == 3 and "\t" not in ls[2]:
                return None if not exp else "nothing found"
            if len(ls) == 3 and not exp:
                return None
            tail = ls[-2:]
            ndots = 0
            for l in ls[2:-2]:
                m = re.fullmatch(r"(.*?) (<REP>\t| {7} *[^\t]*)\t(.{7})\t(.*)", l)
                if not m:
                    return "unknown line %r" % l
                if posixpath.basename(m.group(4)) in (".", ".."):
                    ndots += 1      # the manual leaves open which of them are shown
                    continue
                rows.append(m.groups())
                names.append(m.group(4))
            nums = [re.match(r"\t*(\d+) ", l) for l in tail]
            if None in nums:
                return "no totals"
        want_abs = k["abs"] or (cmdly and k["s"] and k["b"])
        got = []
        for n in names:
            if n.startswith("/") != want_abs:
                return "%r is %s" % (n, "absolute" if n.startswith("/") else "relative")
            got.append(canon(n))
        if sorted(got) != exp:
            miss, more = list(exp), []
            for x in got:
                if x in miss:
                    miss.remove(x)
                else:
                    more.append(x)
            return "missing %s, superfluous %s" % ([x[len(d):] for x in miss[:5]], [x[len(d):] for x in more[:5]])
        nd = 0
        for x, (when, size, typ, n) in zip(got, rows):
            p = fs.res(posixpath.normpath(x)[len(d) + 1:])
            if p is None or p not in nodes:
                continue
            y = nodes[p]
            isd = y[0] == "d"
            nd += isd
            if (typ[0] == "D") != isd or (size == "<REP>\t") != isd:
                return "%s shown as %s" % (n, "directory" if typ[0] == "D" else "file")
            if (typ[2] == "R") != (not y[-1]):
                return "attribute R of %s" % n
            if not isd and size.strip() != fmt(len(y[1])):
                return "size of %s: %r instead of %r" % (n, size.strip(), fmt(len(y[1])))
            if p in times and when != datetime.datetime.fromtimestamp(
                    times[p], datetime.timezone.utc).strftime("%m/%d/%y %H:%M:%S"):
                return "time of %s: %s" % (n, when)
        if rows and all(fs.res(posixpath.normpath(x)[len(d) + 1:]) in nodes for x in got):
            if [int(m.group(1)) for m in nums] != [len(rows) - nd, nd + ndots]:
                return "totals %s instead of %d, %d" % ([l.strip() for l in tail], len(rows) - nd, nd)
        return None

    for i, (v, d, nodes, times, cmdly, s, cases, res) in c.pmap(one, range(c.n(700, 14000))):
        rep = {"script": s, "tree": fscase.show(nodes), "variant": v, **res.brief(3000)}
        if res.timeout or res.crashed or (v == "asan" and res.sanitizer()):
            c.violation("abnormal/%d" % i, "hang" if res.timeout else "signal %d" % -res.rc if res.crashed else res.sanitizer(), rep)
            continue
        got = bat.outputs(res.out)
        for j, k in enumerate(cases):
            c.saw((k["cmd"], k["cwd"], k["exp"]), nontrivial=bool(k["exp"]), listings=1, names=len(k["exp"]), recursive=int(k["s"]),
                  wildcards=int(k["path"] is not None and not trivial(k["path"])), details=int(not k["b"]), cmdlycorrect=int(cmdly))
            if i == 2 and j < 4:
                c.samples.append({"in": k["cwd"], "command": k["cmd"], "lists": k["exp"][:8]})
            bad = "no output" if j not in got else judge(d, nodes, times, cmdly, k, got[j])
            if bad:
                c.violation("dir/%d.%d" % (i, j), "%s in %s: %s" % (k["cmd"], k["cwd"], bad), dict(rep, command=k["cmd"], cwd=k["cwd"], exp=k["exp"], got=got.get(j)))
    big(c, bins["plain"])
    c.finish(1000)


def big(c, b):
    """sizes at the limits of the number formats (sparse files)"""
    sizes = [0, 1, 9, 10, 99, 100, 999, 1000, 1009, 9999, 10000, 99999, 100000, 999999, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 5 * 2 ** 30]

    def post(d):
        for n in sizes:
            if not run.sparse("%s/s/%d" % (d, n), n):
                os.path.exists("%s/s/%d" % (d, n)) and os.unlink("%s/s/%d" % (d, n))
    d = c.arena.case_dir({"t.bat": "@dir s\n@dir /b /a:I s\n"}, dirs=("s",), post=post)
    there = [n for n in sizes if os.path.exists("%s/s/%d" % (d, n))]
    res = c.run([bat.pbat(b), "t.bat"], d, env=run.base_env(TZ="UTC", LC_ALL="C.UTF-8"))
    c.arena.drop(d)
    out = res.out.decode("utf-8", "replace")
    for n in there:
        m = re.search(r" {7} *([^\t]*)\t.{7}\ts/%d\n" % n, out)
        c.saw(("size", n), sizes=1)
        if not m or m.group(1).strip() != fmt(n):
            c.violation("size/%d" % n, "a file of %d bytes is shown with size %r instead of %r" % (n, m and m.group(1), fmt(n)), res.brief())
    if not out.endswith("\ns/0\n"):
        c.violation("empty", "DIR /A:I lists %r" % out[-100:], res.brief())


if __name__ == "__main__":
    main(fn)
