"""A model of a small file tree and of what the file commands do to it, by the manual.

Nodes by canonical path: ["d", w], ["f", bytes, w], ["l", canonical target].  w: writable by its owner."""
import itertools, math, re
from .bat import rmatch


class rx:
    def __init__(self, pat):
        self.pat = pat

    def fullmatch(self, s):
        v = rmatch(self.pat, s, True)
        if v is None:
            raise Ambiguous()
        return v


def trivial(p):
    return not re.search(r"[*?]", p)


class Ambiguous(Exception):
    pass


class Eof(Exception):
    pass


class FS:
    def __init__(self, nodes):
        self.n = {k: list(v) for k, v in nodes.items()}

    # ---- looking
    def res(self, p, last=True):
        """canonical path of p (it may not exist), None if a directory on the way is missing"""
        cur = ""
        parts = p.split("/")
        for i, c in enumerate(parts):
            fin = i == len(parts) - 1
            cur = cur + "/" + c if cur else c
            x = self.n.get(cur)
            if x and x[0] == "l" and (not fin or last):
                cur = x[1]
                t = cur.split("/")
                if any(self.n.get("/".join(t[:j]), "?")[0] == "l" for j in range(1, len(t) + 1)):
                    raise Ambiguous()       # links to links are left out
                x = self.n.get(cur)
            if not fin and (not x or x[0] != "d"):
                return None
        return cur

    def node(self, p, last=True):
        c = self.res(p, last)
        return self.n.get(c) if c is not None else None

    def isdir(self, p):
        x = self.node(p)
        return bool(x) and x[0] == "d"

    def isfile(self, p):
        x = self.node(p)
        return bool(x) and x[0] == "f"

    def islink(self, p):
        x = self.node(p, False)
        return bool(x) and x[0] == "l"

    def names(self, p):
        c = self.res(p)
        pre = c + "/"
        return sorted(k[len(pre):] for k in self.n if k.startswith(pre) and "/" not in k[len(pre):])

    def same(self, a, b):
        ca, cb = self.res(a), self.res(b)
        return ca is not None and ca == cb and ca in self.n

    # ---- searching: like the commands do it
    def walk(self, base, pats, rec, pseudo=False):
        out = []
        pat, rest = pats[0], pats[1:]
        while rest and trivial(pat):
            base += "/" + pat
            pat, rest = rest[0], rest[1:]
        if trivial(pat) and not rest:
            q = base + "/" + pat
            return [q] if self.isfile(q) or self.isdir(q) else []
        if not self.isdir(base):
            return []
        m = rx(pat)
        if pseudo and not rest:     # (the patterns for directories never match them)
            out += [base + "/" + x for x in (".", "..") if m.fullmatch(x)]
        for x in self.names(base):
            q = base + "/" + x
            if m.fullmatch(x):
                if self.isfile(q):
                    if not rest:
                        out.append(q)
                elif not rest:
                    if rec and self.isdir(q) and not self.islink(q):
                        out += self.walk(q, [pat], rec)
                    out.append(q)
                else:
                    out += self.walk(q, rest, rec, pseudo)
            elif rec and not rest and self.isdir(q) and not self.islink(q):
                out += self.walk(q, [pat], rec)
        return out

    def search(self, p, rec=False, dirmode=False, pseudo=False):
        if (rec or dirmode) and self.isdir(p):
            out = self.walk(p, ["*"], rec, pseudo)
            return out if dirmode else out + [p]
        if self.isdir(p) or self.isfile(p):
            return [p]
        if trivial(p):
            return []
        parts = p.split("/")
        return self.walk(parts[0], parts[1:], rec, pseudo)

    # ---- elementary changes; each returns whether it succeeded
    def canchange(self, c):
        d = c.rpartition("/")[0]
        x = self.n.get(d)
        return bool(x) and x[0] == "d" and x[1]

    def write(self, p, data, w=True):
        c = self.res(p)
        if c is None:
            return False
        x = self.n.get(c)
        if x:
            if x[0] != "f" or not x[2]:
                return False
            x[1] = data
            return True
        if not self.canchange(c):
            return False
        self.n[c] = ["f", data, w]
        return True

    def unlink(self, p):
        c = self.res(p, False)
        x = self.n.get(c) if c else None
        if not x or x[0] == "d" or not self.canchange(c):
            return False
        del self.n[c]
        return True

    def rmdir(self, p):
        c = self.res(p, False)
        x = self.n.get(c) if c else None
        if not x or not self.canchange(c):
            return False
        if x[0] == "l" and not self.isfile(p):
            del self.n[c]
            return True
        if x[0] != "d" or any(k.startswith(c + "/") for k in self.n):
            return False
        del self.n[c]
        return True

    def mkdirs(self, p):
        parts = p.split("/")
        for i in range(1, len(parts) + 1):
            q = "/".join(parts[:i])
            if not self.isdir(q):
                c = self.res(q)
                if c is not None and self.res(q, False) not in self.n and self.canchange(c):
                    self.n[c] = ["d", True]
        return self.isdir(p)

    def rename(self, a, b):
        ca, cb = self.res(a, False), self.res(b, False)
        if ca is None or cb is None or ca not in self.n:
            return False
        if ca == cb:
            return True
        x, y = self.n[ca], self.n.get(cb)
        if not self.canchange(ca) or not self.canchange(cb):
            return False
        if x[0] == "d":
            if (y and y[0] != "d") or (cb + "/").startswith(ca + "/") or any(k.startswith(cb + "/") for k in self.n):
                return False
            if not x[1] and ca.rpartition("/")[0] != cb.rpartition("/")[0]:
                return False        # the kernel has to write its .. entry; depends on the file system
        elif y and y[0] == "d":
            return False
        moved = {cb + k[len(ca):]: v for k, v in self.n.items() if k == ca or k.startswith(ca + "/")}
        for k in [k for k in self.n if k == ca or k.startswith(ca + "/")]:
            del self.n[k]
        self.n.update(moved)
        return True

    # ---- commands: return True (success), False (must report failure), None (either)
    def selected(self, p, attr):
        x = self.node(p)
        d = bool(x) and x[0] == "d"
        for neg, a in re.findall(r"(-?)([DRIdri])", attr):
            if x is None:
                v = False
            elif a in "Dd":
                v = d
            elif a in "Rr":
                v = not x[-1]
            else:
                v = x[0] == "f" and len(x[1]) == 0
            if v == bool(neg):
                return False
        return True

    def confirm(self, ans, st):
        """one question; st keeps the answer ALL"""
        if st.get("all"):
            return True
        while True:
            a = ans.pop(0) if ans else ""
            st["asked"] = st.get("asked", 0) + 1
            a = a.lower()
            if a in ("y", "yes"):
                return True
            if a in ("n", "no", ""):
                return False
            if a in ("a", "all"):
                st["all"] = True
                return True

    def copy(self, move, srcs, dest, slash, plus, silent, attr, ans, got=None):
        """dest without its trailing slash; got: content found in dest afterwards (settles the order of a search)"""
        groups = []
        for s in srcs:
            m = self.search(s, pseudo=True)
            if not m:
                return False
            groups.append([p for p in m if not p.endswith(("/.", "/..")) and not self.isdir(p) and self.selected(p, attr)])
        files = [p for g in groups for p in g]
        todir = slash or self.isdir(dest)
        cat = plus
        if len(files) > 1:
            if not move and not todir:
                cat = True
            else:
                todir = True
        st = {"all": silent}
        if not files:
            return None
        if cat:
            # whether DEST may be one of the files depends on the order of the search
            if any(self.same(p, dest) for p in files):
                for i, g in enumerate(groups):
                    if any(self.same(p, dest) for p in g) and len(g) > 1 and not any(groups[:i]):
                        raise Ambiguous()
                if not self.same(files[0], dest) or sum(self.same(p, dest) for p in files) > 1:
                    return False
            if self.isdir(dest):
                return False
            if self.isfile(dest) and not self.confirm(ans, st):
                return True
            if not all(self.isfile(p) for p in files):
                if sum(len(g) > 1 for g in groups) or not self.isfile(files[0]):
                    raise Ambiguous()
            exp = None
            if math.prod(math.factorial(len(g)) for g in groups) > 1000:
                raise Ambiguous()
            for ps in itertools.product(*[itertools.permutations(g) for g in groups]):
                data = b"".join(self.node(p)[1] for g in ps for p in g if self.isfile(p))
                if exp is None or data == got:
                    exp = data
            if len(files) == 1 and self.same(files[0], dest):
                return None
            w = [self.node(p)[2] for p in files if self.isfile(p)]
            if not all(w) and not self.isfile(dest):
                raise Ambiguous()       # created read-only by whichever comes first
            return self.write(dest, exp) and all(self.isfile(p) for p in files)
        names = [p.rpartition("/")[2] for p in files]
        for g in groups:
            b = [p.rpartition("/")[2] for p in g]
            if todir and len(set(b)) < len(b):
                raise Ambiguous()
        ok = True
        for p, nm in zip(files, names):
            d = dest + "/" + nm if todir else dest
            if self.isfile(d) and not self.confirm(ans, st):
                continue
            if move:
                ok &= self.rename(p, d)
            elif self.same(p, d) or not self.isfile(p):
                ok = False
            else:
                x = self.node(p)
                ok &= self.write(d, x[1], x[2])
        return ok

    def copyr(self, move, src, dest, silent, ans):
        static = re.split(r"[*?]", src)[0].rpartition("/")[0]
        m = self.search(src, rec=True, dirmode=True)
        if not m:
            return False
        dirs = [p for p in m if self.isdir(p)]
        files = [p for p in m if not self.isdir(p)]
        for p in m:
            if self.islink(p) and not self.isfile(p):
                raise Ambiguous()
        if any(self.res(p) == self.res(dest + q[len(static):]) for p in files for q in files if p != q):
            raise Ambiguous()       # depends on the order
        st = {"all": silent}
        ok = True
        for p in dirs:
            ok &= self.mkdirs(dest + p[len(static):])
        for p in files:
            d = dest + p[len(static):]
            ok &= self.mkdirs(d.rpartition("/")[0])
            if self.isfile(d) and not self.confirm(ans, st):
                continue
            if move:
                ok &= self.rename(p, d)
            elif self.same(p, d):
                ok = False
            else:
                x = self.node(p)
                ok &= self.write(d, x[1], x[2])
        if move:
            for p in dirs:
                ok &= self.rmdir(p)
        return ok

    def ren(self, p, name):
        d = p.rpartition("/")[0] + "/" + name
        c = self.res(d, False)
        if self.res(p, False) == c and c in self.n:
            return True
        if c is not None and c in self.n:
            return False
        return self.rename(p, d)

    def delete(self, names, rec, force, quiet, ask, attr, ans):
        files = []
        joker = False
        for s in names:
            m = self.search(s, rec=rec, dirmode=True)
            if not m:
                return False
            joker |= not trivial(s)
            files += m
        st = {"all": True}
        if ask or (joker and not quiet):
            st["all"] = False
        ok = True
        if not attr and not force:
            attr = "-R"
        sel = [p for p in files if not self.isdir(p) and self.selected(p, attr)]
        for p in sel:
            x = self.node(p)
            if x and not x[-1] and not force:
                continue
            if not self.confirm(ans, st):
                continue
            ok &= self.unlink(p)
        return ok

    def rd(self, names, rec, quiet, ans):
        if not rec and len(names) == 1:
            return self.rmdir(names[0])
        st = {"all": quiet}
        ok = True
        found = []
        for s in names:
            if self.islink(s) and self.isdir(s) and self.res(s, False) in self.n:
                if self.confirm(ans, st):
                    ok &= self.rmdir(s)
                continue
            if self.isfile(s):
                ok = False
                continue
            m = self.search(s, rec=rec)
            if not m:
                return False
            found += m
        dirs = [p for p in found if self.isdir(p)]
        for p in [p for p in found if not self.isdir(p)]:
            if self.confirm(ans, st):
                ok &= self.unlink(p)
        for p in dirs:
            if self.confirm(ans, st):
                ok &= self.unlink(p) if self.islink(p) else self.rmdir(p)
        return ok

    def md(self, names):
        for p in names:
            if not self.mkdirs(p):
                return False
        return True


def parse_log(data):
    """[(tag, {path: [type, mode, content]})] from what the snap helper appended"""
    out = []
    i = 0

    def z():
        nonlocal i
        j = data.index(b"\0", i)
        s = data[i:j]
        i = j + 1
        return s
    while i < len(data):
        tag = z().decode()
        t = {}
        for _ in range(int(z())):
            typ, path, mode, n = z().decode(), z().decode("utf-8", "surrogateescape"), int(z(), 8), int(z())
            t[path] = [typ, mode, data[i:i + n]]
            i += n
        out.append((tag, t))
    return out
