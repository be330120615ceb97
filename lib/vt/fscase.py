"""Random sequences of file commands over random trees, replayed against vt.fsmodel."""
import copy, os, posixpath
from vt import fsmodel, bat
from vt.fsmodel import FS, Ambiguous, trivial

NAMES = ["a.txt", "b.txt", "abc.txt", "c.dat", "n", "sp ace.txt", ".dot", "x.y.z", "UP.TXT", "\u00e9t\u00e9.txt", "a", "a+b", "d.d",
         "long" + "n" * 60 + ".txt"]
DIRS = ["d1", "d2", "d 3", "s", "deep", "d.d"]
PATS = ["*", "*.txt", "a*", "*.*", "?.*", "*a*", "x*", "*.dat", "zz*", "d*", "?", "*.y.z"]


def content(r, k):
    q = r.random()
    if q < .12:
        return b""
    if q < .8:
        return b"content %d\n" % k * r.randint(1, 3)
    if q < .9:
        return b"%05d\r\n\0\x1a\xff\xe9" % k * r.choice([1, 300])
    return (b"%07d\n" % k * 1300)[:r.choice([2047, 2048, 2049, 4096, 6144, 10000])]


def tree(r, links=True, readonly=True):
    n = {"r": ["d", True], "out": ["d", True], "out/od": ["d", True], "out/o.txt": ["f", b"outside\n", True],
         "out/od/k.txt": ["f", b"keep\n", True], "out/od/sub": ["d", True], "out/od/sub/k2.txt": ["f", b"keep2\n", True]}
    k = [0]

    def fill(d, depth):
        for nm in r.sample(NAMES, r.randint(0 if depth else 2, 5)):
            if d + "/" + nm not in n:
                k[0] += 1
                n[d + "/" + nm] = ["f", content(r, k[0]), not (readonly and r.random() < .12)]
        if depth < 3:
            for nm in r.sample(DIRS, r.randint(0 if depth else 1, 3 - depth)):
                if d + "/" + nm not in n:
                    n[d + "/" + nm] = ["d", True]
                    fill(d + "/" + nm, depth + 1)
    fill("r", 0)
    if links:
        ds = [p for p in n if n[p][0] == "d" and p.startswith("r")]
        fs = [p for p in n if n[p][0] == "f"]
        for i in range(r.choice([0, 0, 1, 2, 3])):
            t = r.choice([r.choice(fs), "out/od", "out/od", "r/nothing", "out/o.txt", r.choice(ds)])
            p = r.choice(ds) + "/l%d" % i + r.choice(["", ".txt"])
            if t != "r" and not (p + "/").startswith(t + "/"):
                n[p] = ["l", t]
    if readonly:
        for p in n:
            if n[p][0] == "d" and p.count("/") > 1 and r.random() < .06:
                n[p][1] = False
    return n


def make(d, nodes, uid):
    """Create the tree below d."""
    for p in sorted(nodes):
        x = nodes[p]
        q = os.path.join(d, p)
        if x[0] == "d":
            os.mkdir(q)
        elif x[0] == "f":
            with open(q, "wb") as fh:
                fh.write(x[1])
        else:
            os.symlink(os.path.join(d, x[1]), q)
        if uid is not None:
            os.lchown(q, uid, uid)
    for p in sorted(nodes, reverse=True):
        if nodes[p][0] != "l":
            os.chmod(os.path.join(d, p), (0o755 if nodes[p][0] == "d" else 0o644) & (0o777 if nodes[p][-1] else 0o555))


class Gen:
    def __init__(self, r, verbs, nodes):
        self.r, self.verbs = r, verbs
        self.fs = FS(nodes)
        self.cwd = "r"

    # ---- paths
    def pick(self, kinds="fdl", base=None):
        ps = [p for p in self.fs.n if p.startswith("r/") and self.fs.n[p][0] in kinds]
        return self.r.choice(sorted(ps)) if ps else None

    def newname(self):
        r = self.r
        d = r.choice(sorted(p for p in self.fs.n if self.fs.n[p][0] == "d" and p.startswith("r")))
        if r.random() < .08:
            d += "/" + r.choice(["no", "nd"])
        return d + "/" + r.choice(NAMES + ["new%d" % r.randint(1, 9)] * 12)

    def pattern(self):
        r = self.r
        d = r.choice(sorted(p for p in self.fs.n if self.fs.n[p][0] == "d" and p.startswith("r")))
        if r.random() < .1 and d.count("/"):
            h, _, t = d.rpartition("/")
            d = h + "/" + r.choice([t[0] + "*", t[:-1] + "?", "*"] if len(t) > 1 else [t])
        return d + "/" + r.choice(PATS)

    def spell(self, p, slash=False):
        r = self.r
        q = r.random()
        if q < .25:
            s = "%b%/" + p
        else:
            s = posixpath.relpath(p, self.cwd)
            if q < .35:
                s = "./" + s
            elif q < .42:
                s = "../" + self.cwd.rpartition("/")[2] + "/" + s if self.cwd != "r" or True else s
        if slash:
            s += "/"
        if " " in s or r.random() < .15 or "+" == s:
            s = '"%s"' % s
        return s

    def source(self):
        r = self.r
        q = r.random()
        if q < .6:
            return self.pick("fffl") or "r/none"
        if q < .9:
            return self.pattern()
        if q < .95:
            return self.pick("d") or "r/none"
        return self.newname()

    def answers(self, uniform):
        r = self.r
        if uniform:
            return r.choice([["y"] * 40, ["n"] * 40, ["a"], [], ["YES"] * 40, ["all"]])
        return [r.choice(["y", "n", "a", "", "yes", "No", "ALL", "what?", "yy", "Y"]) for _ in range(r.randint(0, 4))] + \
            r.choice([[], ["y"], ["n"]])

    # ---- one command: (record, text)
    def command(self):
        r = self.r
        v = r.choice(self.verbs)
        sw = []
        attr = ""
        if v in ("copy", "move", "del") and r.random() < .2:
            attr = "".join("-D" if a == "D" else r.choice(["-", ""]) + a
                           for a in r.sample("RI" if v == "del" else "RID", r.choice([1, 1, 2])))
            sw.append(r.choice(["/a:", "/a", "/A:"]) + (attr if r.random() < .7 else attr.lower()))
        if v in ("copy", "move"):
            silent = False
            if r.random() < .45:
                silent = True
                sw.append(r.choice(["/y", "/Y"]))
            elif r.random() < .1:
                sw += r.choice([["/-y"], ["/-Y"]])
            srcs = [self.source() for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3, 4]))]
            plus = v == "copy" and len(srcs) > 1 and r.random() < .6
            q = r.random()
            slash = False
            if q < .3:
                dest = self.pick("d") or "r"
                slash = r.random() < .4
            elif q < .6:
                dest = self.newname()
                slash = r.random() < .05
            elif q < .9:
                dest = self.pick("ffl") or "r/zz"
            else:
                dest = srcs[0] if trivial(srcs[0]) else "r/zz"
            ans = self.answers(len(srcs) > 1 or not trivial(srcs[0]))
            if slash and plus:
                raise Ambiguous()
            rec = ("copy", v == "move", srcs, dest, slash, plus, silent, attr, ans)
            a = []
            for i, s in enumerate(srcs):
                if i and plus and (i == 1 or r.random() < .7):
                    a.append("+")
                a.append(self.spell(s))
            args = self.mixin(sw, a) + [self.spell(dest, slash)]
            return rec, v, args, ans
        if v in ("copyr", "mover"):
            src = r.choice([self.pick("d") or "r/none", self.pattern()])
            dest = r.choice([self.newname(), self.pick("d") or "r/zz", "r/new/tree"])
            top = fsmodel.re.split(r"[*?]", src)[0].rpartition("/")[0] if not trivial(src) else src
            if (dest + "/").startswith(top + "/"):
                raise Ambiguous()
            silent = r.random() < .6
            ans = self.answers(True)
            rec = ("copyr", v == "mover", src, dest, silent, ans)
            return rec, v[:4], self.mixin(["/r"] + (["/y"] if silent else []), [self.spell(src)]) + [self.spell(dest)], ans
        if v == "ren":
            p = r.choice([self.pick("ffdl"), self.newname(), self.pick("f")]) or "r/none"
            nm = r.choice([r.choice(NAMES), r.choice(DIRS), "ren%d" % r.randint(1, 5), p.rpartition("/")[2],
                           (self.pick() or "r/q").rpartition("/")[2]])
            return ("ren", p, nm), r.choice(["ren", "rename"]), [self.spell(p), '"%s"' % nm if " " in nm else nm], []
        if v == "del":
            names = [r.choice([self.pick("fffl"), self.pick("ffd"), self.pattern(), self.newname()]) or "r/none"
                     for _ in range(r.choice([1, 1, 1, 2, 3]))]
            rec_, force, quiet, ask = r.random() < .25, r.random() < .3, r.random() < .5, False
            if not quiet and r.random() < .4:
                ask = True
            # /S looks below directories: the last part of the name has to be a pattern or a directory
            if rec_ and any(trivial(s) and not self.fs.isdir(s) for s in names):
                raise Ambiguous()
            one = len(names) == 1 and trivial(names[0]) and self.fs.isfile(names[0])
            ans = self.answers(not one)
            sw += ["/s"] * rec_ + ["/f"] * force + ["/q"] * quiet + ["/p"] * ask
            rec = ("delete", names, rec_, force, quiet, ask, attr, ans)
            return rec, r.choice(["del", "erase"]), self.mixin(sw, [self.spell(s) for s in names]), ans
        if v == "rd":
            names = [r.choice([self.pick("d"), self.pick("dl"), self.pick("dddf"), self.newname()]) or "r/none"
                     for _ in range(r.choice([1, 1, 1, 2]))]
            if any(b.startswith(a + "/") or a == b for i, a in enumerate(names) for j, b in enumerate(names) if i != j):
                raise Ambiguous()       # the second one is gone when it is its turn
            rec_, quiet = r.random() < .6, r.random() < .5
            ans = self.answers(True)
            return (("rd", names, rec_, quiet, ans), r.choice(["rd", "rmdir"]),
                    self.mixin(["/s"] * rec_ + ["/q"] * quiet, [self.spell(s) for s in names]), ans)
        if v == "md":
            names = [r.choice([self.newname(), self.newname() + "/" + r.choice(DIRS), self.newname() + "/x/y", self.pick()]) or "r/m"
                     for _ in range(r.choice([1, 1, 2, 3]))]
            return ("md", names), r.choice(["md", "mkdir"]), [self.spell(s) for s in names], []
        raise KeyError(v)

    def mixin(self, sw, args):
        """switches anywhere among the arguments"""
        out = list(args)
        if self.r.random() < .7:
            return [s if self.r.random() < .7 else s.upper() for s in sw] + out
        for s in sw:
            out.insert(self.r.randint(0, len(out)), s)
        return out


def apply(fs, rec, got=None):
    rec = copy.deepcopy(rec)
    if rec[0] == "copy":
        return fs.copy(*rec[1:], got=got)
    return getattr(fs, rec[0])(*rec[1:])


def generate(r, verbs, n, links=True, readonly=True):
    """dict(nodes, files, script, steps)"""
    nodes = tree(r, links, readonly)
    g = Gen(r, verbs, nodes)
    lines, steps, files = ["@echo off", "set d=echo x"], [], {}
    tries = 0
    while len(steps) < n and tries < 300:
        tries += 1
        if r.random() < .3 or not g.fs.isdir(g.cwd) or g.fs.res(g.cwd) != g.cwd:
            ds = sorted(p for p in g.fs.n if g.fs.n[p][0] == "d" and p.startswith("r"))
            g.cwd = r.choice(ds)
        save = copy.deepcopy(g.fs.n)
        try:
            rec, verb, args, ans = g.command()
            if rec[0] in ("rd", "ren", "copyr"):
                # the current directory stays where it is
                if any((g.cwd + "/").startswith((p.rstrip("/") if isinstance(p, str) else "?") + "/")
                       for p in (rec[1] if rec[0] == "rd" else [rec[1] if rec[0] == "ren" else rec[2]])):
                    raise Ambiguous()
                if rec[0] == "copyr" and not trivial(rec[2]):
                    raise Ambiguous() if g.cwd != "r" else None
            before = len(g.fs.n)
            apply(g.fs, rec)
        except (Ambiguous, TypeError):
            g.fs.n = save
            continue
        if len(g.fs.n) > 120:
            g.fs.n = save
            continue
        k = len(steps)
        files["ans%d" % k] = "".join(a + "\n" for a in ans)
        if verb != verb.lower() or r.random() < .2:
            verb = verb.upper()
        lines.append("cd %%b%%/%s" % ('"%s"' % g.cwd if False else g.cwd))
        cmd = verb + " " + " ".join(args)
        lines.append("%s <%%b%%/ans%d" % (cmd, k))
        lines.append('%%s%% %%b%%/log %d:%%errorlevel%% %%b%%/r %%b%%/out' % k)
        steps.append((rec, cmd, g.cwd, g.fs.n != save))
    lines.append("echo @end")
    files["t.bat"] = "\n".join(lines) + "\n"
    return dict(nodes=nodes, files=files, steps=steps, verbs=verbs)


def show(n):
    return {p: (x[0], x[1][:60] if x[0] != "d" else "", x[-1]) for p, x in sorted(n.items())}


def verify(case, d, log):
    """None, or (step number, text)"""
    fs = FS(case["nodes"])
    snaps = fsmodel.parse_log(log)
    for k, (rec, cmd, cwd, _) in enumerate(case["steps"]):
        if k >= len(snaps):
            return k, "no state recorded after %r" % cmd
        tag, snap = snaps[k]
        got = {}
        for p, (t, mode, data) in snap.items():
            q = p[len(d) + 1:]
            if t == "f":
                got[q] = ["f", data, bool(mode & 0o200)]
            elif t == "d":
                got[q] = ["d", bool(mode & 0o200)]
            elif t == "l":
                got[q] = ["l", os.fsdecode(data)[len(d) + 1:]]
            else:
                got[q] = [t]
        dest = None
        if rec[0] == "copy":
            c = fs.res(rec[3])
            dest = got[c][1] if c in got and got[c][0] == "f" else None
        old = copy.deepcopy(fs.n)
        ok = apply(fs, rec, dest)
        if got != fs.n:
            diffs = ["%s: %s instead of %s (was %s)" % (p, brief(got.get(p)), brief(fs.n.get(p)), brief(old.get(p)))
                     for p in sorted(set(got) | set(fs.n)) if got.get(p) != fs.n.get(p)]
            return k, "after %r in %s (answers %r): %s" % (cmd, cwd, case["files"]["ans%d" % k][:40], "; ".join(diffs[:4]))
        el = tag.partition(":")[2]
        if tag.partition(":")[0] != str(k):
            return k, "step %s recorded instead of %d" % (tag, k)
        if ok is False and el == "0":
            return k, "%r in %s could not do what it was told and reports success" % (cmd, cwd)
        if ok is True and el != "0":
            return k, "%r in %s did all it was told and reports failure (%s)" % (cmd, cwd, el)
    return None


def brief(x):
    return "nothing" if x is None else "%s%s" % ({"f": "file ", "d": "directory ", "l": "link "}.get(x[0], x[0]),
                                                  (x[1][:40] if x[0] != "d" else b""))


def drive(c, jobs, verbs, nsteps):
    """Run generated sequences; report what differs from the model. In "short" jobs the system transfers less
    than what read() and write() ask for."""
    from vt import build, run
    snap = build.helper("snap")
    short = build.helper("shortio", ("-shared", "-fPIC"))
    uid = run.UID if run.can_drop() else None

    def one(job):
        variant, b, i = job
        r = c.rng(variant, i)
        case = generate(r, verbs, r.randint(1, nsteps), links=r.random() < .6, readonly=r.random() < .5)
        d = c.arena.case_dir(case["files"], post=lambda d: make(d, case["nodes"], uid))
        env = run.base_env(s=snap, b=d)
        if variant == "short":
            env.update(LD_PRELOAD=short, VT_SHORT=str(r.randint(1, 10 ** 6)))
        res = c.run([bat.pbat(b), "t.bat"], d, env=env, timeout=20)
        try:
            with open(os.path.join(d, "log"), "rb") as fh:
                log = fh.read()
        except OSError:
            log = b""
        bad = None
        if not (res.timeout or res.crashed or (variant == "asan" and res.sanitizer())):
            bad = verify(case, d, log)
        c.arena.drop(d)
        return case, bad, res

    for variant, n in jobs:
        b = build.build("plain" if variant == "short" else variant)
        for (_, _, i), (case, bad, res) in c.pmap(one, [(variant, b, i) for i in range(n)]):
            rep = lambda: {"script": case["files"]["t.bat"], "answers": {k: v for k, v in case["files"].items() if k[0] == "a"},
                           "tree": show(case["nodes"]), **res.brief(3000)}
            for rec, cmd, cwd, changed in case["steps"]:
                c.saw((rec, cwd, sorted(case["nodes"])), changed,
                      sample={"in": cwd, "command": cmd} if changed and i % 80 == 3 else None)
                c.count(rec[0] + (" changing" if changed else ""))
            if res.timeout or res.crashed or (variant == "asan" and res.sanitizer()):
                c.violation("crash:%s/%d" % (variant, i), "%s" % (res.sanitizer() or ("rc %s timeout %s" % (res.rc, res.timeout))),
                            rep())
            elif bad:
                k, txt = bad
                c.violation("tree:%s/%d/%d" % (variant, i, k), txt, rep())
            elif b"@end" not in res.out:
                c.violation("end:%s/%d" % (variant, i), "the script did not come to its end", rep())
