"""P27: the parts of paths that %~... gives, against what the file system and the manual say."""
import os, posixpath, datetime
from vt.check import Check, main
from vt import build, run, bat

OPTS = "fdnpxzta"
STEM = ["a", "b c", "x.y", "été", "日本", "UP", "long" * 20, "n-1", "-", "_", "a=b", "k,k", "v;w", "(p)", "[q]", "#", "$d", "it's", "a+b", "~t", "w" * 200]
EXT = ["", "", ".txt", ".t", ".tar.gz", ".", ".é", ".TXT", ".b c", ".longer-extension", "..x"]


class World:
    """A tree, and the ways to name things in it."""

    def __init__(self, r, root):
        self.r, self.root = r, root
        self.nodes, self.times = {}, {}
        dirs = [""]
        for _ in range(r.randint(2, 5)):
            p = posixpath.join(r.choice(dirs), self.name())
            if p.count("/") < 4 and len(p) < 600:
                self.nodes[p] = ("d", 0, True)
                dirs.append(p)
        dirs = [""] + [p for p in self.nodes]
        for _ in range(r.randint(4, 9)):
            p = posixpath.join(r.choice(dirs), self.name())
            if p not in self.nodes:
                self.nodes[p] = ("f", r.choice([0, 1, 9, 1234, 65536] if r.random() < 0.98 else [2 ** 31 + 5, 5 * 10 ** 9]), r.random() < 0.7)
                self.times[p] = r.randrange(10 ** 8, 17 * 10 ** 8)
        self.dirs = dirs

    def name(self):
        r = self.r
        while True:
            n = r.choice(STEM) + r.choice(EXT) if r.random() < 0.93 else "." + r.choice(STEM)
            if n not in (".", "..", "-.") and len(n.encode()) < 250 and n != "t.bat":
                return n

    def post(self, d):
        for p, (k, size, w) in self.nodes.items():
            q = os.path.join(d, p)
            if k == "d":
                os.makedirs(q, exist_ok=True)
        for p, (k, size, w) in self.nodes.items():
            q = os.path.join(d, p)
            if k == "f":
                with open(q, "wb") as fh:
                    if size < 1 << 20:
                        fh.truncate(size)
                if size >= 1 << 20 and not run.sparse(q, size):
                    self.nodes[p] = (k, 0, w)
                os.chmod(q, 0o644 if w else 0o444)
                os.utime(q, (self.times[p], self.times[p] - 1000))
        if run.can_drop():
            for rr, ds, fs in os.walk(d):
                for x in ds + fs:
                    os.lchown(os.path.join(rr, x), run.UID, run.UID)

    def value(self, cwd):
        """(text, node it names or None); the text is relative to cwd or absolute"""
        r = self.r
        if r.random() < 0.75:
            p = r.choice(sorted(self.nodes))
        else:
            p = posixpath.join(r.choice(self.dirs), "no" + self.name())
        if r.random() < 0.25:
            t = self.root + "/" + p
        else:
            if cwd:
                if not p.startswith(cwd + "/"):
                    return None
                t = p[len(cwd) + 1:]
            else:
                t = p
        return t, self.nodes.get(p) and p


class Model:
    def __init__(self, w):
        self.w = w

    def value(self, opts, val, cwd, script=None):
        """what the options make of a value; None if the manual leaves it open"""
        w = self.w
        node = None
        if len(val) > 1 and val[0] == '"' and val[-1] == '"':
            val = val[1:-1]
        if not opts:
            return val
        if script:
            val = script
        full = val if val.startswith("/") else posixpath.join(w.root, cwd, val)
        rel = full[len(w.root) + 1:] if full.startswith(w.root + "/") else None
        node = w.nodes.get(rel)
        if script:
            node = ("f", self.script_size[rel], True)
        i = full.rindex("/") + 1
        d, base = full[:i], full[i:]
        n, dot, x = base.rpartition(".")
        if not dot:
            n, x = base, ""
        out = ""
        for k, o in enumerate(opts):
            more = k + 1 < len(opts)
            nxt = opts[k + 1] if more else ""
            tab = "\t" if more else ""
            if o == "f":
                out += full + tab
            elif o == "d":
                out += "" if nxt == "p" else tab
            elif o == "p":
                out += d + ("" if nxt == "n" else tab)
            elif o == "n":
                out += n + ("" if nxt == "x" else tab)
            elif o == "x":
                out += dot + x + tab
            elif node is None:
                if len(opts) > 1:
                    return None
            elif o == "z":
                if node[0] == "d":
                    return None
                out += "%d" % node[1] + tab
            elif o == "a":
                out += ("D" if node[0] == "d" else " ") + " " + (" " if node[2] else "R") + "    " + tab
            elif o == "t":
                if node[0] == "d" or script:
                    return None
                out += datetime.datetime.fromtimestamp(w.times[rel], datetime.timezone.utc).strftime("%m/%d/%y %H:%M:%S") + tab
        return out

    def expand(self, text, vars, cwd, script=None):
        """text with single %; vars: name -> value"""
        out, i, nopt = "", 0, []
        while i < len(text):
            c = text[i]
            if c != "%" or i + 1 >= len(text):
                out, i = out + c, i + 1
                continue
            j = i + 1
            if text[j] != "~":
                if text[j] in vars:
                    out, i = out + vars[text[j]], j + 1
                else:
                    out, i = out + "%", i + 1
                continue
            j += 1
            o = j
            while j < len(text) and text[j] in OPTS and j - o < 16:
                j += 1
            while True:
                if j < len(text) and text[j] in vars:
                    break
                j -= 1
                if j < o:
                    break
            if j < o:
                out, i = out + "%", i + 1
                continue
            v = self.value(text[o:j], vars[text[j]], cwd, script if text[j] == "0" else None)
            if v is None:
                return None
            nopt.append(text[o:j])
            out, i = out + v, j + 1
        self.nopt = nopt
        return out


NAMES = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ@_$#"


def fn():
    c = Check("P27", "exploration", "distinct: hash of the text expanded, the values of its variables and the directory; nontrivial: some option applies",
              ["the separators between combined parts are those of the current implementation (the manual names none)",
               "letters of drives, hidden, system and archive attributes do not exist on this system"])
    bins = {v: build.build(v) for v in ("plain", "asan")}

    def one(i):
        r = c.rng(i)
        v = "asan" if i % 8 == 0 else "plain"
        root = c.arena.next_dir()
        w = World(r, root)
        m = Model(w)
        lines, exp = ["@echo off"], []
        cwd = ""
        script = r.choice(["t.bat", "sub dir/t.x.bat", "s/u.v.cmd"])
        others = {}

        def piece(vars, pc):
            k = r.random()
            o = "".join(r.choice(OPTS) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5, 16, 17, 18])))
            if r.random() < 0.25:
                o = r.choice(["dp", "nx", "dpnx", "pn", "f", "ftza", "dpn"])
            tail = r.choice(["", "", "]", "x", "n", "nx", " z", "é", ".t", "I"])
            if pc == "%%":
                n = r.choice(sorted(vars)) if k < 0.85 else r.choice(NAMES)
                pre = "~" if r.random() < 0.93 else ""
                return pc + pre + o + n + tail
            n = r.choice(sorted(vars))
            return pc + ("~" + o if r.random() < 0.93 else "") + n + tail

        def add(vars, pc, cwd, script=None, indent=""):
            for _ in range(50):
                t = "".join(piece(vars, pc) for _ in range(r.choice([1, 1, 1, 2, 3])))
                e = m.expand(t.replace("%%", "%"), vars, cwd, script)
                if e is None or len(e) > 6000:
                    continue
                if pc == "%" and any(ch in e.replace('"', "") for ch in "%!"):
                    continue
                exp.append((t, dict(vars), cwd, e, bool(m.nopt and any(m.nopt))))
                lines.append(indent + "echo @#%d#" % (len(exp) - 1))
                # quotes protect the brackets and the like of what an argument holds
                lines.append(indent + ('echo "[%s]"' if pc == "%" else "echo [%s]") % t)
                return

        m.script_size = {}
        labels = []
        for _ in range(r.randint(3, 6)):
            if r.random() < 0.4:
                cwd = r.choice(w.dirs)
                if "%" in cwd or "!" in cwd:
                    cwd = ""
                lines.append('cd "%s"' % posixpath.join(root, cwd))
            if r.random() < 0.6:
                vars, close = {}, 0
                for _ in range(r.choice([1, 1, 2, 3])):
                    val = None
                    while val is None:
                        val = w.value(cwd)
                        if val is None and r.random() < 0.2:
                            val = ("none", None)
                    n = r.choice(NAMES if r.random() < 0.6 else OPTS)
                    if n in vars:
                        continue
                    t = val[0]
                    if r.random() < 0.5:
                        vars[n] = '"%s"' % t
                        lines.append('for %%%%%s in ("%s") do (' % (n, t))
                    else:
                        if t[0] in ";":
                            t = "x" + t
                        vars[n] = t
                        lines.append('for /f "delims=" %%%%%s in ("%s") do (' % (n, t))
                    close += 1
                for _ in range(r.randint(1, 3)):
                    add(vars, "%%", cwd)
                lines.append(")" * close)
            else:
                args, vars = [], {}
                for k in range(r.randint(1, 4)):
                    val = w.value(cwd) or ("none.x", None)
                    t = val[0]
                    if any(ch in t for ch in " ,;=()&|<>^~'") or r.random() < 0.5:
                        t = '"%s"' % t
                    args.append(t)
                    vars[str(k + 1)] = val[0]
                l = "l%d" % len(labels)
                lines.append("call :%s %s" % (l, " ".join(args)))
                labels.append((l, vars, cwd))
        lines.append("echo @#9999#")
        lines.append("exit /b")
        for l, vars, cwd in labels:
            lines.append(":" + l)
            vs = dict(vars)
            for _ in range(r.randint(1, 4)):
                if r.random() < 0.25:
                    o = r.choice(["f", "dp", "nx", "n", "x", "dpnx", "p", "fn"])
                    full = posixpath.join(root, script)
                    m.script_size[script] = 0
                    e = m.value(o, "", cwd, full)
                    exp.append(("%~" + o + "0", {"0": script}, cwd, e, True))
                    lines += ["echo @#%d#" % (len(exp) - 1), 'echo "[%%~%s0]"' % o]
                else:
                    add(vs, "%", cwd)
            lines.append("echo @#9998#")
            lines.append("goto :eof")
        s = "\n".join(lines) + "\n"
        d = c.arena.case_dir({script: s}, post=w.post, d=root)
        start = script if r.random() < 0.5 else "//" + os.path.join(root, script)
        cmd = [bat.pbat(bins[v])] + ([script] if start == script else ["//", os.path.join(root, script)])
        res = c.run(cmd, d, env=run.base_env(TZ="UTC", LC_ALL="C.UTF-8"))
        c.arena.drop(d)
        return v, s, exp, w, res

    for i, (v, s, exp, w, res) in c.pmap(one, range(c.n(1500, 30000))):
        rep = {"script": s, "tree": sorted((p, x) for p, x in w.nodes.items()), "variant": v, **res.brief(3000)}
        if res.timeout or res.crashed or (v == "asan" and res.sanitizer()):
            c.violation("abnormal/%d" % i, "hang" if res.timeout else "signal %d" % -res.rc if res.crashed else res.sanitizer(), rep)
            continue
        got = bat.outputs(res.out)
        for j, (t, vars, cwd, e, nt) in enumerate(exp):
            c.saw((t, sorted(vars.items()), cwd), nontrivial=nt, expansions=1, options=int(nt), loops=int("%%" in t), arguments=int("%%" not in t),
                  relative=int(bool(cwd)))
            if i == 3 and j < 4:
                c.samples.append({"text": t, "variables": vars, "in": cwd, "gives": e})
            want = '"[%s]"\n' % e if "%%" not in t else "[%s]\n" % e
            if got.get(j) != want:
                c.violation("mod/%d.%d" % (i, j), "%s with %s in %r gave %r instead of %r" % (t, vars, cwd, got.get(j), want), dict(rep, text=t))
    c.finish(1000)


if __name__ == "__main__":
    main(fn)
