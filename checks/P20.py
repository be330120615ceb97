"""P20: a script does what its statements say, however its text is laid out and read."""
import os
from vt.check import Check, main
from vt import build, run, bat

SIZES = [0, 1, 3, 20, 100, 245, 250, 255, 256, 257, 500, 505, 509, 510, 511, 512, 513, 514, 1000, 1020, 1023, 1024, 1025, 2047, 2048, 4000, 4090, 4095, 4096, 4097]
BIG = [8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 200000]


class Prog:
    """A random program; self.out is what it writes."""

    def __init__(self, r, straight=False, append=False, big=False):
        self.r, self.straight, self.n, self.nl = r, straight, 0, 0
        self.subs, self.depth = [], 0
        self.budget = 60 if not big else 900
        self.app = append
        items = self.items(r.randint(2, 7 if not big else 120))
        if append:
            items += self.appends()
        self.main = items

    def id(self):
        self.n += 1
        return "k%d" % self.n

    def payload(self):
        r = self.r
        n = r.choice(SIZES if r.random() < 0.25 else SIZES[:5] if r.random() < 0.995 else BIG)
        if n <= 3:
            return "x" * n
        al = r.choice(["ab c", "é", "日本x", "abcdefghij", 'a"&|<>() "', "0123 %"])
        if al[1:2] == '"':
            s = 'a"' + "&|<> b"[: n % 6] + "y" * n + '"'
        else:
            s = "".join(r.choice(al) for _ in range(n))
        return s.strip().replace("  ", "__")

    def items(self, k, inblock=False):
        return [x for x in (self.item(inblock) for _ in range(k)) if x]

    def item(self, inblock):
        r = self.r
        self.budget -= 1
        k = r.random()
        if self.budget < 0 or k < 0.45:
            return ("echo", self.id(), self.payload())
        if k < 0.6:
            return ("set", self.id(), "v%d" % r.randint(0, 3), self.payload().replace('"', ""))
        if k < 0.75 and self.depth < 4:
            self.depth += 1
            x = ("block", r.choice(["if", "else", "for", "par"]), self.items(r.randint(1, 4), True))
            self.depth -= 1
            return x
        if self.straight or inblock or self.depth:
            return ("echo", self.id(), self.payload())
        if k < 0.78:
            return ("mode", r.choice(["cmdlycorrect", "cmdlycorrect", "cmdlyincorrect", "enabledelayedexpansion"]), self.items(r.randint(0, 4)))
        if k < 0.84:
            self.nl += 1
            return ("goto", "l%d" % self.nl, self.items(r.randint(0, 2)))
        if k < 0.9:
            self.nl += 1
            self.depth += 1
            x = ("loop", "l%d" % self.nl, r.randint(1, 3), self.items(r.randint(1, 3), True))
            self.depth -= 1
            return x
        self.nl += 1
        l = "l%d" % self.nl
        self.depth += 1
        self.subs.append((l, self.items(r.randint(1, 4), True)))
        self.depth -= 1
        return ("call", l, self.subs[-1][1])

    def appends(self):
        """the script writes its own end while it runs"""
        r = self.r
        out = []
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < 0.5:
                i, p = self.id(), "".join(r.choice("abc") for _ in range(r.choice(SIZES)))
                out.append(("append", ["echo [%s]%s" % (i, p)], ["[%s]%s" % (i, p)]))
            elif k < 0.8:
                i, j = self.id(), self.id()
                out.append(("append", ["if 1==1 (", "echo [%s]" % i, "echo [%s]" % j, ")"], ["[%s]" % i, "[%s]" % j]))
            else:
                self.nl += 1
                i, l = self.id(), "l%d" % self.nl
                out.append(("append", ["goto %s" % l, "echo wrong", ":%s" % l, "echo [%s]" % i], ["[%s]" % i]))
        return out

    # -- what it does
    def run(self):
        self.out, self.vars, self.later = [], {}, []
        self._run(self.main)

    def _run(self, items):
        for x in items:
            if x[0] == "echo":
                self.out.append("[%s]%s" % (x[1], x[2]))
            elif x[0] == "set":
                self.vars[x[2]] = x[3]
                self.out.append("[%s]%s." % (x[1], x[3]))
            elif x[0] == "block":
                for _ in range(2 if x[1] == "for" else 1):
                    self._run(x[2])
            elif x[0] == "loop":
                for _ in range(x[2]):
                    self._run(x[3])
            elif x[0] in ("call", "mode"):
                self._run(x[2])
            elif x[0] == "append":
                self.later += x[2]

    # -- how it is written
    def text(self, lay):
        self.lay, self.lines, self.nest = lay, [], 0
        r = self.r
        if lay["shebang"]:
            self.lines.append(r.choice(["#!/usr/bin/pbat", "#! pbat " + "x" * 600]))
        self.lines += ["@echo off"]
        if lay["cmdly"] == "setlocal":
            self.lines.append("setlocal cmdlycorrect")
        if lay["subs"] == "before" and self.subs:
            self.lines.append("goto main")
            self.put_subs()
            self.lines.append(":main")
        self.put(self.main)
        if lay["subs"] == "after" and self.subs:
            self.line(r.choice(["exit /b", "goto :eof", "exit", "goto:eof"]))
            self.put_subs()
        self.noise()
        if lay["cmdly"] == "setlocal" and lay["end"]:
            self.line("endlocal")
            self.line("echo [end]")
            self.out.append("[end]")
        nl = lay["nl"]
        s = "".join(x + (nl if nl != "mix" else r.choice(["\n", "\r\n"])) for x in self.lines)
        if not lay["last"]:
            s = s.rstrip("\r\n")
        return s

    def put_subs(self):
        r = self.r
        for l, items in self.subs:
            self.lines.append(r.choice(["", "", " ", "\t"]) + ":" + l + r.choice(["", "", " ", "  "]))
            self.put(items)
            self.line(r.choice(["exit /b", "goto :eof", "exit /b 0"]))

    def noise(self, block=False):
        r = self.r
        while r.random() < self.lay["noise"]:
            c = "".join(r.choice('abc ()|&<>"%:') for _ in range(r.choice([0, 3, 30, 250, 511, 512, 1024] if r.random() < 0.3 else [5])))
            c = c.replace("%", "%%")
            k = r.random()
            if k < 0.35:
                self.lines.append(r.choice(["", " ", "\t", "   \t "]))
            elif k < 0.75:
                self.lines.append(r.choice(["", "", " ", "\t "]) + "::" + c)
            elif k < 0.85:
                self.lines.append(":unused%d %s" % (r.randrange(99), c))
            elif not block:
                self.lines.append("rem " + "".join(ch for ch in c if ch.isalpha() or ch == " "))

    def line(self, s, block=False):
        self.noise(block)
        r = self.r
        self.lines.append(r.choice(["", "", "", " ", "\t", "        "]) + s)

    def put(self, items, block=False):
        r = self.r
        for x in items:
            if x[0] == "echo":
                self.line("echo [%s]%s" % (x[1], x[2].replace("%", "%%")), block)
            elif x[0] == "set":
                self.line('set "%s=%s"' % (x[2], x[3].replace("%", "%%")), block)
                q = '"' if any(ch in x[3] for ch in "&|<>()") else ""
                self.line("echo [%s]!%s!." % (x[1], x[2]), block)
            elif x[0] == "block":
                h, t = {"if": ("if 1==1 (", ")"), "else": ("if 1==2 (echo wrong) else (", ")"), "for": ("for %%%%%s in (1 2) do (" % "ghijkl"[self.nest], ")"),
                        "par": ("(", ")")}[x[1]]
                if len(x[2]) == 1 and x[2][0][0] == "echo" and '"' not in x[2][0][2] and r.random() < 0.4:
                    self.line(h + "echo [%s]%s" % (x[2][0][1], x[2][0][2].replace("%", "%%")) + t, block)
                else:
                    self.line(h, block)
                    self.nest += 1
                    self.put(x[2], True)
                    self.nest -= 1
                    self.noise(True)
                    self.line(t, True)
            elif x[0] == "goto":
                self.line("goto " + x[1])
                self.put(x[2])
                self.lines.append(r.choice(["", "", "  ", "\t"]) + ":" + x[1] + r.choice(["", "", " ", " \t"]))
            elif x[0] == "loop":
                self.line("set /a c%s=0" % x[1])
                self.lines.append(r.choice(["", "", "  ", "\t"]) + ":" + x[1])
                self.put(x[3])
                self.line("set /a c%s=c%s+1" % (x[1], x[1]))
                self.line("if !c%s! lss %d goto %s" % (x[1], x[2], x[1]))
            elif x[0] == "mode":
                self.line("setlocal " + x[1])
                self.put(x[2])
                self.line("endlocal")
            elif x[0] == "call":
                self.line("call :" + x[1])
            elif x[0] == "append":
                for l in x[1]:
                    self.line('(echo %s)>>"%%~f0"' % l.replace("(", "^(").replace(")", "^)"))


def fn():
    c = Check("P20", "exploration", "distinct: hash of the script's text and of how it is read; nontrivial: it has blocks, jumps or lines of 250 characters and more",
              ["scripts change while they run only by growing at their end"])
    bins = {v: build.build(v) for v in ("plain", "asan")}

    def one(i):
        r = c.rng(i)
        v = "asan" if i % 6 == 0 else "plain"
        way = r.choice(["file", "file", "file", "call", "stdin", "append"])
        p = Prog(r, straight=way == "stdin", append=way == "append", big=r.random() < 0.03)
        p.run()
        lay = {"shebang": r.random() < 0.2 and way != "stdin", "cmdly": r.choice(["", "", "setlocal", "option"]), "subs": r.choice(["before", "after"]),
               "noise": r.choice([0, 0.1, 0.4, 0.7]), "nl": r.choice(["\n", "\n", "\r\n", "mix"]), "last": r.random() < 0.5, "end": r.random() < 0.5}
        if way == "append":
            lay.update(subs="before", last=True, nl="\n")
            lay["end"] = False
        if lay["subs"] == "after" and p.subs:
            lay["end"] = False
        s = p.text(lay)
        want = "".join(x + "\n" for x in p.out + p.later)
        files, cmd = {"t.bat": s}, [bat.pbat(bins[v])]
        if lay["cmdly"] == "option":
            cmd.append("/a:c")
        kw = {}
        if way == "call":
            files["m.bat"] = "@call t.bat\n@echo [back]\n"
            if "\nexit\n" in s.replace("\r", "").replace("\t", "").replace(" ", ""):
                lay["exit"] = True
            else:
                want += "[back]\n"
            cmd.append("m.bat")
        elif way == "stdin":
            cmd.append("/a:q")
            kw["stdin"] = s.encode()
        else:
            cmd.append("t.bat")
        d = c.arena.case_dir(files)
        res = c.run(cmd, d, timeout=60, **kw)
        c.arena.drop(d)
        return v, way, lay, s, want, p, res

    for i, (v, way, lay, s, want, p, res) in c.pmap(one, range(c.n(1500, 30000))):
        rep = {"script": s[:20000], "way": way, "layout": lay, "variant": v, **res.brief(3000)}
        ls = s.split("\n")
        c.saw((way, lay["cmdly"], s), nontrivial=len(s) > 250, scripts=1, lines=len(ls), cmdlycorrect=int(bool(lay["cmdly"])),
              crlf=int("\r\n" in s), unended=int(not lay["last"]), **{way: 1, "lines of 500 and more bytes": sum(len(x.encode()) >= 500 for x in ls)})
        if i == 3:
            c.samples.append({"way": way, "script": s[:1500], "writes": want[:500]})
        if res.timeout or res.crashed or (v == "asan" and res.sanitizer()):
            c.violation("abnormal/%d" % i, "hang" if res.timeout else "signal %d" % -res.rc if res.crashed else res.sanitizer(), rep)
            continue
        got = res.out.decode("utf-8", "surrogateescape")
        if way == "stdin":      # what precedes ECHO OFF taking effect, and the prompt at the end
            k = got.find("[k")
            got = "".join(x.lstrip(">") + "\n" for x in got[k:].split("\n")[:-1]) if k >= 0 else got
        if got != want or res.err:
            a, b = got.split("\n"), want.split("\n")
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            c.violation("layout/%d" % i, "%s %s: line %d of the output is %r instead of %r%s" % (
                way, lay, k, (a + ["-"])[k if k < len(a) else -1][:200], (b + ["-"])[k if k < len(b) else -1][:200],
                ", error output %r" % res.err[:200] if res.err else ""), rep)
    c.finish(500)


if __name__ == "__main__":
    main(fn)
