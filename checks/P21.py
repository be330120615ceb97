"""P21: CD, PUSHD and POPD move the one current directory everything else works in."""
import os, posixpath, re
from vt.check import Check, main
from vt import build, run, bat

NAMES = ["a", "b", "sub", "sp ace", ".h", "..x", "été", "A", "x.d", "a&b", "(p)", "a-b", "c,d", "e;f", "g=h", "日", "long" * 12, "...", "a'b", "[z]"]

class World:
    def __init__(self, r, root):
        self.root = root
        self.dirs = {root}
        todo = [root]
        for _ in range(r.randint(4, 14)):
            p = r.choice(todo)
            d = p + "/" + r.choice(NAMES)
            if d.count("/") < root.count("/") + 6 and d not in self.dirs:
                self.dirs.add(d)
                todo.append(d)
        self.files = {d + "/id.t": "in %s\n" % d for d in self.dirs}
        self.links = {}
        for k in range(r.choice([0, 0, 1, 2, 3])):
            t = r.choice(sorted(self.dirs))
            at = r.choice(sorted(self.dirs))
            self.links["%s/l%d" % (at, k)] = t
        self.wrote = {}

    def real(self, p):
        """the physical path of p, a directory or None; .. as the system takes it"""
        cur = ""
        for x in p.split("/"):
            if x in ("", "."):
                continue
            if x == "..":
                cur = cur.rsplit("/", 1)[0]
                continue
            cur += "/" + x
            if cur in self.links:
                cur = self.links[cur]
            if not self.isdir(cur):
                return None
        return cur or "/"

    def isdir(self, d):
        return d in self.dirs or d in ("", "/", "/usr", "/usr/bin", "/etc") or (self.root + "/").startswith(d + "/")


class State:
    def __init__(self, w, cwd=None, stack=()):
        self.w, self.cwd, self.stack = w, cwd or w.root, list(stack)

    def go(self, path):
        full = path if path.startswith("/") else self.cwd + "/" + path
        new = posixpath.normpath("/" + full.lstrip("/"))
        if self.w.real(full) is None or self.w.real(new) is None:
            return False
        self.cwd = new
        return True


class Gen:
    def __init__(self, r, w, pbat):
        self.r, self.w, self.pbat = r, w, pbat
        self.subs, self.scripts, self.n, self.kinds = [], {}, 0, {}

    def saw(self, k):
        self.kinds[k] = self.kinds.get(k, 0) + 1

    # ---- paths
    def path(self, st):
        """(a path, whether a directory can be gone to by it)"""
        r = self.r
        k = r.random()
        if k < 0.06:
            return r.choice(["none", "a/none", "id.t", "none/..", "../none", self.w.root + "/none", "id.t/..", "l9"])
        if k < 0.11:
            return r.choice(["/", "/usr/bin", "/usr/bin/..", "/etc", "/..", "/../usr", "/./usr/", "../../../../../../../../../../../../../../usr", "/usr/../etc/."])
        if k < 0.2:
            return r.choice([".", "..", "../..", "./", "../", "./..", ".././", "..//.."])
        cands = sorted(x for x in list(self.w.dirs) + list(self.w.links))
        tgt = r.choice(cands)
        if k < 0.4 or st.cwd == "/":
            p = tgt
        else:
            kids = sorted(set(x[len(st.cwd) + 1:].split("/")[0] for x in cands if x.startswith(st.cwd + "/")))
            if kids and k < 0.75:
                p = r.choice(kids)
            else:
                p = posixpath.relpath(tgt, st.cwd)
        # the same, written in other ways
        parts = p.split("/")
        out = []
        for j, x in enumerate(parts):
            out.append(x)
            if x and r.random() < 0.08:
                out.append(r.choice([".", "", "./."]))
            if x not in ("", ".", "..") and r.random() < 0.06:
                out += ["..", x]
        p = "/".join(out) + ("/" * r.choice([1, 2]) if r.random() < 0.15 and p != "/" else "")
        return p

    def quote(self, p, alone):
        r = self.r
        special = re.search(r"[&()^|<>,;=' ]", p)
        if special and not (alone and re.fullmatch(r"[^&()^|<>,;=']*", p) and r.random() < 0.4):
            return '"%s"' % p
        return '"%s"' % p if r.random() < 0.3 else p

    # ---- statements: each is text for one line; st is what they do
    def op(self, st, out):
        r = self.r
        k = r.random()
        if k < 0.5:
            p = self.path(st)
            ok = st.go(p)
            verb = r.choice(["cd", "cd", "CD", "chdir"]) + r.choice(["", "", " /d"])
            self.saw("cd" if ok else "cd that fails")
            return "%s %s%s" % (verb, self.quote(p, True), r.choice(["", "", " ", "  "])), ok
        if k < 0.78:
            ps = []
            ok = True
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                p = self.path(st)
                ps.append(self.quote(p, False))
                if ok:
                    old = st.cwd
                    ok = st.go(p)
                    if ok:
                        st.stack.append(old)
            self.saw("pushd" if ok else "pushd that fails")
            return "pushd " + " ".join(ps), ok
        if not st.stack:
            self.saw("popd without any")
            return "popd", False
        old = st.stack.pop()
        ok = st.go(old)
        self.saw("popd" if ok else "popd that fails")
        return "popd", ok

    def look(self, st, out, block):
        r = self.r
        w = self.w
        k = r.choice(["cd", "var", "pwd", "type", "write", "stack", "ff", "exist", "child", "cd"])
        here = w.real(st.cwd)
        self.saw("seen by " + k)
        if k == "cd":
            out.append(st.cwd)
            return r.choice(["cd", "chdir", "CD"])
        if k == "var":
            if block or r.random() < 0.5:
                out.append("[%s]" % st.cwd)
                return "echo [!CD!]"
            out.append('"[%s]"' % st.cwd)
            return 'echo "[%CD%]"'
        if k == "pwd":
            out.append(here)
            return "/bin/pwd -P"
        if k == "stack":
            out += st.stack[::-1]
            return "pushd"
        inside = here in w.dirs
        if k == "type" and inside and here + "/id.t" in w.files:
            out.append(w.files[here + "/id.t"].strip())
            return "type id.t"
        if k == "write" and inside:
            self.n += 1
            w.wrote["%s/w%d" % (here, self.n)] = "%d\n" % self.n
            return "echo %d>w%d" % (self.n, self.n) if self.n > 9 else "echo.%d >w%d" % (self.n, self.n)
        if k == "ff" and inside and here + "/id.t" in w.files:
            out.append(st.cwd + "/id.t")
            return "for %%f in (id.t) do echo %%~ff"
        if k == "exist":
            out.append("yes" if inside and here + "/id.t" in w.files else "no")
            return "if exist id.t (echo yes) else (echo no)"
        if k == "child":
            out.append(here)
            return '"%s" /c cd' % self.pbat
        out.append("[%s]" % st.cwd)
        return "echo [!CD!]"

    def simple(self, st, out, block):
        r = self.r
        if r.random() < 0.6:
            s, ok = self.op(st, out)
            if r.random() < 0.4:
                out.append("ok" if ok else "bad")
                s = s + (' & if "!errorlevel!"=="0" (echo ok) else (echo bad)')
            return [s]
        return [self.look(st, out, block)]

    def seq(self, st, out, n, block, depth):
        ls = []
        for _ in range(n):
            ls += self.stmt(st, out, block, depth)
        return ls

    def stmt(self, st, out, block=False, depth=2):
        r = self.r
        k = r.random()
        if depth == 0 or k < 0.72:
            return self.simple(st, out, block)
        n = r.randint(1, 4)
        if k < 0.77:
            body = self.seq(st, out, n, True, depth - 1)
            self.saw("block")
            return ["if 1==1 ("] + body + [")"]
        if k < 0.84:
            # one side of a pipe: what it does there stays there
            st2 = State(self.w, st.cwd, st.stack)
            o2 = []
            body = self.seq(st2, o2, n, True, 0)
            out += o2
            self.saw("pipe")
            return ["("] + body + [") | /bin/cat"]
        if k < 0.88 and not block:
            st2 = State(self.w, st.cwd, st.stack)
            o2 = []
            s, ok = self.op(st2, o2)
            if "'" in s:
                return self.simple(st, out, block)
            out.append("got " + st2.cwd)
            self.saw("for /f")
            return ["for /f \"delims=\" %%%%l in ('%s 2^>nul ^& cd') do echo got %%%%l" % s.replace("%", "%%")]
        if k < 0.92:
            lbl = "s%d" % len(self.subs)
            self.subs.append(None)
            i = len(self.subs) - 1
            body = self.seq(st, out, n, False, depth - 1)
            self.subs[i] = [":" + lbl] + body + ["goto :eof"]
            self.saw("call :label")
            return ["call :" + lbl]
        if k < 0.95:
            name = "x%d.bat" % len(self.scripts)
            self.scripts[name] = ""
            if not self.w.real(st.cwd):
                return []
            body = self.seq(st, out, n, False, 0)
            self.scripts[name] = "\n".join(body) + "\n"
            self.saw("called script")
            return ["call %s/%s" % (self.w.root, name)]
        if k < 0.97:
            body = self.seq(st, out, n, block, 0)
            self.saw("setlocal")
            return ["setlocal"] + body + ["endlocal"]
        # a directory made, gone to and removed from elsewhere
        here = self.w.real(st.cwd)
        if here not in self.w.dirs or block:
            return self.simple(st, out, block)
        self.n += 1
        nd = "n%d" % self.n
        ls = ["md " + nd, r.choice(["pushd ", "cd "]) + nd, "cd"]
        if ls[1].startswith("p"):
            st.stack.append(st.cwd)
        st.cwd = posixpath.normpath(st.cwd + "/" + nd)
        self.w.dirs.add(here + "/" + nd)
        out.append(st.cwd)
        if r.random() < 0.5:
            # it disappears while being on the stack
            st.stack.append(st.cwd)
            st.go(self.w.root)
            ls += ["pushd " + self.w.root, 'rd "%s"' % (here + "/" + nd), "popd", 'if "!errorlevel!"=="0" (echo ok) else (echo bad)']
            self.w.dirs.discard(here + "/" + nd)
            old = st.stack.pop()
            out.append("ok" if st.go(old) else "bad")
            self.saw("popd to a removed one")
        return ls


def fn():
    c = Check("P21", "exploration", "distinct: hash of the script; nontrivial: every script (at least one directory is gone to)",
              ["paths that begin with two separators are outside the domain", "where going back through a symbolic link by .. means "
               "one directory to the system and another by its name, both have to exist"])
    bins = {v: build.build(v) for v in ("plain", "asan")}

    def one(i):
        r = c.rng(i)
        v = "asan" if i % 4 == 3 else "plain"
        d = c.arena.case_dir({"t.bat": "x"})
        base = d + "/w"
        w = World(r, base)
        g = Gen(r, w, bat.pbat(bins[v]))
        st = State(w)
        out = []
        lines = []
        for _ in range(r.choice([5, 10, 20, 40])):
            lines += g.stmt(st, out)
        lines += ["echo end [!CD!]", "pushd"]
        out += ["end [%s]" % st.cwd] + st.stack[::-1]
        s = "@echo off\nsetlocal enabledelayedexpansion\n" + "\n".join(lines) + "\ngoto :eof\n" + "\n".join(
            l for b in g.subs if b for l in b) + "\n"
        fix = lambda t: t.replace("%%%%", "%%")
        files = {p: t for p, t in w.files.items()}
        for p in w.dirs:
            if not os.path.basename(p).startswith("n") or p in [os.path.dirname(f) for f in files]:
                os.makedirs(fix(p), exist_ok=True)
        for p, t in files.items():
            open(fix(p), "w").write(fix(t))
        for p, t in w.links.items():
            os.symlink(fix(t), fix(p))
        for n, t in g.scripts.items():
            open(base + "/" + n, "w").write(fix(t))
        open(d + "/t.bat", "w").write(fix(s))
        if run.can_drop():
            for p in w.dirs:
                if os.path.isdir(fix(p)):
                    os.chown(fix(p), run.UID, run.UID)
        res = c.run([bat.pbat(bins[v]), "../t.bat"], base, timeout=30)
        wrong = []
        for p, t in w.wrote.items():
            try:
                got = open(fix(p)).read()
            except OSError:
                got = None
            if got is None or got.strip() != t.strip():
                wrong.append((p, got))
        text = res.out.decode("utf-8", "surrogateescape")
        c.arena.drop(d)
        return v, g, fix(s), out, text, res, wrong, len(w.wrote)

    for i, (v, g, s, out, text, res, wrong, nw) in c.pmap(one, range(c.n(2500, 50000))):
        rep = {"script": s, "scripts": g.scripts, "links": g.w.links, "dirs": sorted(g.w.dirs), "expected": out, "variant": v, **res.brief(6000)}
        c.saw(s, lines=len(out), written=nw, asan=int(v == "asan"), **{k.replace(" ", "_"): x for k, x in g.kinds.items()})
        if i < 2:
            c.samples.append({"script": s.split("\n")[2:8], "seen": text.split("\n")[:4]})
        if res.timeout or res.crashed or (v == "asan" and res.sanitizer()):
            c.violation("abnormal/%d" % i, "hang" if res.timeout else res.sanitizer() or "signal %d" % -res.rc, rep)
            continue
        got = text.split("\n")
        if got and got[-1] == "":
            got.pop()
        if got != out:
            k = next((k for k, (x, y) in enumerate(zip(got + [None] * len(out), out + [None] * len(got))) if x != y))
            c.violation("cwd/%d" % i, "line %d is %r instead of %r" % (k, got[k:k + 1], out[k:k + 1]), dict(rep, got=got))
        elif wrong:
            c.violation("written/%d" % i, "redirections did not write in the current directory: %r" % wrong[:2], rep)
    c.finish(1000)


if __name__ == "__main__":
    main(fn)
