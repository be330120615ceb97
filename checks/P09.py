"""P09: every redirection sends exactly the streams it names, of exactly the commands it covers, to its file."""
import os, re
from vt.check import Check, main
from vt import build, run, bat

NIN = 30


class Goto(Exception):
    pass


class Gen:
    def __init__(self, r, emit):
        self.r, self.emit = r, emit
        self.n = 0
        self.nin = 0
        self.inputs = {}        # file -> lines
        self.made = []          # output files used so far
        self.busy = set()
        self.nvar = 0
        self.subs = []
        self.labels = 0

    def tok(self):
        self.n += 1
        return "m%d" % self.n

    # pipe: "left"/"noin" inside a pipe ("noin": nothing to read); alias: a stream is directed to the other one
    def leaf(self, ctx):
        r = self.r
        k = r.random()
        if k < .34:
            return {"k": "echo", "t": self.tok()}
        if k < .50:
            return {"k": "err", "t": "n" + self.tok()}
        if k < .68:
            acts = []
            for _ in range(r.randint(1, 3)):
                a = r.choice("ooel")
                if a == "l" and ctx["pipe"] == "noin":
                    a = "o"
                acts.append(("l",) if a == "l" else (a, ("n" if a == "e" else "") + self.tok()))
            return {"k": "emit", "a": acts}
        if k < .84 and ctx["pipe"] != "noin":
            self.nvar += 1
            return {"k": "read", "v": "v%d" % self.nvar}
        if k < .92 and ctx["sub"] < 2:
            n = len(self.subs)
            self.subs.append(None)
            c = dict(ctx, sub=ctx["sub"] + 1, goto=False, d=min(ctx["d"] - 1, 1), top=True)
            self.subs[n] = [self.node(c) for _ in range(r.randint(1, 2))]
            return {"k": "call", "n": n}
        return {"k": "echo", "t": self.tok()}

    def node(self, ctx):
        r = self.r
        ctx = dict(ctx)
        composite = ctx["d"] > 0 and r.random() < .72
        red = []
        own = dict(ctx)
        taken = set()
        if r.random() < (.5 if composite else .45):
            for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
                k = r.choice(["out", "out", "err", "in", "dup", "dup"])
                if k in taken:
                    continue
                if k in ("out", "err"):
                    f, app = self.outfile()
                    red.append((k, f, app))
                elif k == "in":
                    f = "in%d.txt" % self.nin
                    self.nin += 1
                    self.inputs[f] = ["r%sx%d" % (f[2:-4], i) for i in range(NIN)]
                    red.append(("in", f, False))
                    own["pipe"] = ctx["pipe"] and "ok"
                else:
                    red.append(("dup", r.choice(["2>&1", "1>&2"]), False))
                    own["alias"] = True
                taken.add(k)
        new = [f for k, f, a in red if k in ("out", "err")]
        self.busy.update(new)
        try:
            node = self.inner(own, composite)
        finally:
            self.busy.difference_update(new)
        node["r"] = red
        return node

    def inner(self, own, composite):
        r = self.r
        if composite:
            own["d"] -= 1
            k = r.random()
            if k < .60:
                own2 = dict(own, top=False)
                lines = [[self.node(own2) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(r.choice([1, 1, 2, 3]))]
                node = {"k": "block", "l": lines}
                if own["goto"] and r.random() < .12:
                    lines[-1].append({"k": "goto", "r": []})
            elif k < .74:
                node = {"k": "if", "c": r.random() < .7, "b": self.node(dict(own, top=False)), "r": []}
                node = {"k": "block", "l": [[node]]}
            elif k < .86 and not own["loop"]:
                n = r.randint(1, 3)
                body = self.node(dict(own, top=False, loop=True))
                node = {"k": "for", "n": n, "b": body, "r": []}
                node = {"k": "block", "l": [[node]]}
            elif not own["pipe"]:
                left = self.node(dict(own, top=False, goto=False, pipe="left"))
                held = set(files(left))
                self.busy |= held
                right = {"k": "emit", "a": [("c",)], "r": []}
                if r.random() < .5:
                    right = {"k": "block", "l": [[right]] + [[self.node(dict(own, top=False, goto=False, pipe="noin", d=0))]],
                             "r": []}
                elif r.random() < .5 and not own["alias"]:
                    f, app = self.outfile()
                    right["r"] = [("out", f, app)]
                self.busy -= held
                node = {"k": "block", "l": [[{"k": "pipe", "a": left, "b": right, "r": []}]]}
            else:
                node = self.leaf(own)
        else:
            node = self.leaf(own)
        return node

    def outfile(self):
        r = self.r
        free = [f for f in self.made if f not in self.busy]
        if free and r.random() < .35:
            return r.choice(free), r.random() < .5
        f = r.choice(["f%d", "f%d", "F%d.log", "f %d.txt", "d/f%d"]) % len(self.made)
        self.made.append(f)
        return f, r.random() < .3


def files(n):
    for k, f, a in n.get("r", ()):
        if k in ("out", "err"):
            yield f
    if n["k"] == "block":
        for l in n["l"]:
            for x in l:
                yield from files(x)
    elif n["k"] in ("if", "for"):
        yield from files(n["b"])
    elif n["k"] == "pipe":
        yield from files(n["a"])
        yield from files(n["b"])


def allfiles(n, subs):
    yield from files(n)
    for x in walk(n):
        if x["k"] == "call":
            for s in subs[x["n"]]:
                yield from allfiles(s, subs)


def walk(n):
    yield n
    if n["k"] == "block":
        for l in n["l"]:
            for x in l:
                yield from walk(x)
    elif n["k"] in ("if", "for"):
        yield from walk(n["b"])
    elif n["k"] == "pipe":
        yield from walk(n["a"])
        yield from walk(n["b"])


# ---- text
class Text:
    def __init__(self, r, emit):
        self.r, self.emit = r, emit
        self.labels = 0

    def red(self, x):
        k, f, app = x
        r = self.r
        if k == "dup":
            return f
        op = {"out": r.choice([">", "1>"]), "err": "2>", "in": "<"}[k] + (">" if app else "")
        name = f
        if " " in f or r.random() < .2:
            name = '"%s"' % f
        return op + r.choice(["", " ", ""]) + name

    def words(self, ws, red):
        """Put the redirections among the words of a simple command."""
        r = self.r
        out = list(ws)
        for x in red:
            t = self.red(x)
            p = r.randint(1, len(out)) if r.random() < .35 else len(out)
            if r.random() < .12:
                p = 0
            out.insert(p, t)
        return " ".join(out)

    def node(self, n, ind=0):
        r = self.r
        k = n["k"]
        red = list(n["r"])
        r.shuffle(red)
        if k == "echo":
            return self.words(["echo", n["t"]], red)
        if k == "err":
            return self.words(["cd", n["t"]], red)
        if k == "emit":
            return self.words([self.emit] + [":".join(a) for a in n["a"]], red)
        if k == "read":
            return "(" + " ".join(["set /p %s=" % n["v"]] + [self.red(x) for x in red if x[0] == "in"]) + \
                "& echo !%s!)" % n["v"] + "".join(" " + self.red(x) for x in red if x[0] != "in")
        if k == "call":
            return self.words(["call", ":s%d" % n["n"]], red)
        if k == "goto":
            return "goto @END@"
        if k == "if":
            c = r.choice(["1==1", "not 1==2", "defined PATH"]) if n["c"] else r.choice(["1==2", "not 1==1"])
            return "if %s %s" % (c, self.node(n["b"], ind))
        if k == "for":
            return "for %%%%a in (%s) do %s" % (" ".join("i%d" % i for i in range(n["n"])), self.node(n["b"], ind))
        if k == "pipe":
            return self.node(n["a"], ind) + r.choice([" | ", "|", " |"]) + self.node(n["b"], ind)
        if k == "block":
            ls = [r.choice([" & ", "&"]).join(self.node(x, ind + 1) for x in l) for l in n["l"]]
            # one line, or several
            if len(ls) == 1 and r.random() < .6:
                t = r.choice(["(%s)", "( %s )"]) % ls[0]
            elif r.random() < .25:
                t = "(" + "\n".join(ls) + ")"
            else:
                t = "(\n" + "\n".join("  " * ind + x for x in ls) + "\n" + "  " * (ind - 1) + ")"
            return t + "".join(" " + self.red(x) for x in red)
        raise AssertionError(k)


# ---- meaning
class Model:
    def __init__(self, inputs, subs, files):
        self.inputs, self.subs = inputs, subs
        self.sinks = {"OUT": [], "ERR": []}
        self.sinks.update({f: list(v) for f, v in files.items()})
        self.loose = set()      # sinks whose order is not determined
        self.touch = None
        self.trace = []

    def put(self, s, t):
        self.sinks[s].append(t)
        for t in self.trace:
            t.add(s)

    def line(self, src):
        name, pos = src
        if name is None:
            return None
        ls = self.inputs[name]
        if pos[0] >= len(ls):
            return None
        pos[0] += 1
        return ls[pos[0] - 1]

    def run(self, n, o, e, i):
        for k, f, app in n["r"]:
            if k == "in":
                i = (f, [0])
        for k, f, app in n["r"]:
            if k in ("out", "err"):
                if not app or f not in self.sinks:
                    self.sinks[f] = []
                if k == "out":
                    o = f
                else:
                    e = f
        for k, f, app in n["r"]:
            if k == "dup":
                if f == "2>&1":
                    e = o
                else:
                    o = e
        k = n["k"]
        if k == "echo":
            self.put(o, n["t"])
        elif k == "err":
            self.put(e, n["t"])
        elif k == "emit":
            for a in n["a"]:
                if a[0] == "o":
                    self.put(o, a[1])
                elif a[0] == "e":
                    self.put(e, a[1])
                elif a[0] == "l":
                    t = self.line(i)
                    if t is not None:
                        self.put(o, t)
                elif a[0] == "c":
                    while True:
                        t = self.line(i)
                        if t is None:
                            break
                        self.put(o, t)
        elif k == "read":
            t = self.line(i)
            self.put(o, t)
        elif k == "call":
            for x in self.subs[n["n"]]:
                self.run(x, o, e, i)
        elif k == "goto":
            raise Goto
        elif k == "if":
            if n["c"]:
                self.run(n["b"], o, e, i)
        elif k == "for":
            for _ in range(n["n"]):
                self.run(n["b"], o, e, i)
        elif k == "block":
            for l in n["l"]:
                for x in l:
                    self.run(x, o, e, i)
        elif k == "pipe":
            self.npipe = getattr(self, "npipe", 0) + 1
            name = "|%d" % self.npipe
            self.sinks[name] = []
            ta, tb = set(), set()
            self.trace.append(ta)
            self.run(n["a"], name, e, i)
            self.trace.pop()
            self.inputs[name] = list(self.sinks[name])
            self.trace.append(tb)
            self.run(n["b"], o, e, (name, [0]))
            self.trace.pop()
            if name in self.loose:
                self.loose.add(o)
            if n["b"]["k"] == "emit":
                for kk, f, a in n["b"]["r"]:
                    if kk == "out" and name in self.loose:
                        self.loose.add(f)
            self.loose |= ta & tb
            # standard error of the left side that is shared with an enclosing stream
            if o == e:
                self.loose.add(o)


def norm(text, loose):
    t = text.decode("utf-8", "backslashreplace")
    toks = re.findall(r"nm\d+|m\d+|r\d+x\d+|std\d+", t)
    junk = re.sub(r"nm\d+|m\d+|r\d+x\d+|std\d+", "", t).replace('Error : Unable to find folder "".', "")
    junk = re.sub(r"\s+", " ", junk).strip()
    return (sorted(toks) if loose else toks), junk


def make(r, emit):
    g = Gen(r, emit)
    tops = []
    for i in range(r.randint(2, 5)):
        tops.append(g.node({"d": r.choice([1, 2, 3, 3]), "alias": False, "pipe": "", "sub": 0, "goto": True, "loop": False,
                            "top": True}))
    # the same file must not be open twice at a time, through subroutines neither
    def clash(n, open_):
        mine = [f for k, f, a in n["r"] if k in ("out", "err")]
        if len(set(mine)) != len(mine) or open_ & set(mine):
            return True
        o = open_ | set(mine)
        if n["k"] == "call":
            return any(clash(x, o) for x in g.subs[n["n"]])
        if n["k"] == "block":
            return any(clash(x, o) for l in n["l"] for x in l)
        if n["k"] in ("if", "for"):
            return clash(n["b"], o)
        if n["k"] == "pipe":
            a, b = set(allfiles(n["a"], g.subs)), set(allfiles(n["b"], g.subs))
            return bool(a & b) or clash(n["a"], o) or clash(n["b"], o)
        return False
    if any(clash(t, set()) for t in tops):
        return None
    tx = Text(r, emit)
    out = ["@echo off", "setlocal enabledelayedexpansion"]
    for i, t in enumerate(tops):
        out.append(tx.node(t).replace("@END@", "L%d" % i))
        out.append(":L%d" % i)
        out.append("echo m%d" % (90000 + i))
    out += ["cd nm99998", "echo m99999", "goto :eof"]
    for i, s in enumerate(g.subs):
        out.append(":s%d" % i)
        for x in s:
            out.append(tx.node(x).replace("@END@", "eof"))
        if r.random() < .5:
            out.append("exit /b 0")
        else:
            out.append("goto :eof")
    pre = {}
    for f in g.made:
        if r.random() < .2:
            pre[f] = ["m%d" % (80000 + len(pre) * 10 + j) for j in range(r.randint(1, 3))]
    inputs = dict(g.inputs)
    inputs["STDIN"] = ["std%d" % i for i in range(200)]
    m = Model(inputs, g.subs, pre)
    stdin = ("STDIN", [0])
    for i, t in enumerate(tops):
        try:
            m.run(t, "OUT", "ERR", stdin)
        except Goto:
            pass
        m.put("OUT", "m%d" % (90000 + i))
    m.put("ERR", "nm99998")
    m.put("OUT", "m99999")
    if any(t is None for s in m.sinks.values() for t in s):
        return None
    if sum(map(len, m.sinks.values())) > 3000:
        return None
    files = {f: "".join(t + "\n" for t in v) for f, v in pre.items()}
    files.update({f: "".join(t + "\n" for t in v) for f, v in g.inputs.items()})
    return dict(script="\n".join(out) + "\n", files=files, stdin="".join(t + "\n" for t in inputs["STDIN"]),
                sinks={k: v for k, v in m.sinks.items() if not k.startswith("|")}, loose=m.loose, gen=g, pre=pre,
                given=set(g.inputs))


def compare(res, d, case):
    """What differs: (sink, expected, seen) or None."""
    for s in sorted(case["sinks"]):
        exp = case["sinks"][s]
        if s == "OUT":
            data = res.out
        elif s == "ERR":
            data = res.err
        else:
            try:
                with open(os.path.join(d, s), "rb") as fh:
                    data = fh.read()
            except FileNotFoundError:
                data = None
        if data is None:
            return s, exp, None
        toks, junk = norm(data, s in case["loose"])
        if toks != (sorted(exp) if s in case["loose"] else list(exp)):
            return s, exp, toks
        if junk:
            return s, "no other text", junk
    have = set()
    for r, ds, fs in os.walk(d):
        for f in fs:
            have.add(os.path.relpath(os.path.join(r, f), d))
    extra = have - set(case["sinks"]) - case["given"] - set(case["pre"]) - {"t.bat"}
    if extra:
        return "extra files", [], sorted(extra)
    return None


def body():
    ck = Check("P09", "exploration",
               "a case is a script with at least one redirection whose every stream and file was compared; distinct by its text",
               ["writes to a file opened for appending are ordered as they are made"])
    ck_bin = build.build("plain")
    pbat = bat.pbat(ck_bin)
    emit = build.helper("emit")
    jit = build.helper("jit", ("-shared", "-fPIC", "-ldl"))

    # nested: the stream another one is directed to is itself redirected inside
    if ck.want("nested"):
        for name, line, exp in [
            ("out-under-2>&1", "((echo m1& cd nm2) > f3) > g3 2>&1", {"f3": ["m1"], "g3": ["nm2"]}),
            ("err-under-1>&2", "((echo m1& cd nm2) 2> f3) 2> g3 1>&2", {"f3": ["nm2"], "g3": ["m1"]}),
            ("err-under-2>&1", "((echo m1& cd nm2) 2> f3) > g3 2>&1", {"f3": ["nm2"], "g3": ["m1"]}),
            ("out-under-1>&2", "((echo m1& cd nm2) > f3) 2> g3 1>&2", {"f3": ["m1"], "g3": ["nm2"]}),
            ("cd-before", "cd d & echo m1 > g5 & cd ..", {"d/g5": ["m1"]}),
            ("name-before", "set q=1& echo m1 > x!q!.t& set q=2& echo m2 > \"x!q! t\"", {"x1.t": ["m1"], "x2 t": ["m2"]}),
            ("cd-left", "(cd d & echo m1 > g6) | rem", {"d/g6": ["m1"]}),
            ("swap-1", "((echo m1& cd nm2) 2>&1) 1>&2 2> g3", {"g3": ["m1", "nm2"]}),
            ("swap-2", "((echo m1& cd nm2) 1>&2) > g3 2>&1", {"g3": ["m1", "nm2"]}),
        ]:
            sinks = dict(exp, OUT=["m3"], ERR=["nm4"])
            case = dict(sinks=sinks, loose=set(), given=set(), pre={})
            d = ck.arena.case_dir({"t.bat": "@echo off\nsetlocal enabledelayedexpansion\n%s\necho m3\ncd nm4\n" % line}, dirs=("d",))
            res = ck.run([pbat, "t.bat"], d)
            bad = compare(res, d, case)
            ck.saw(("nested", name), nested_cases=1)
            if bad or res.timeout or res.crashed:
                ck.violation("nested/" + name, "%s: %s holds %s instead of %s" % (line, bad and bad[0], bad and bad[2], bad and bad[1]),
                             {"line": line, "sink": bad, "result": res.brief()})
            ck.arena.drop(d)

    def one(i):
        r = ck.rng("c", i)
        for _ in range(50):
            case = make(r, emit)
            if case:
                break
        d = ck.arena.case_dir(dict(case["files"], **{"t.bat": case["script"]}), dirs=("d",))
        sd = os.path.join(ck.arena.root, "stdin%d" % i)
        with open(sd, "w") as fh:
            fh.write(case["stdin"])
        os.chmod(sd, 0o644)
        env = run.base_env()
        if i % 6 == 0:
            env.update(LD_PRELOAD=jit, JIT="%d,%d,%d" % (r.randint(1, 9999), r.choice([10, 60]), r.choice([200, 1000])))
        res = ck.run([pbat, "t.bat"], d, stdin_path=sd, env=env)
        bad = "time limit" if res.timeout else "signal" if res.crashed else compare(res, d, case)
        ck.arena.drop(d)
        os.unlink(sd)
        return case, res, bad

    if ck.want("random"):
        for i, (case, res, bad) in ck.pmap(one, range(ck.n(1500, 40000))):
            s = case["script"]
            nred = len(re.findall(r"[<>]", s))
            ck.saw(s, nontrivial=nred > 0, scripts=1, redirections=nred, sinks=len(case["sinks"]),
                   tokens=sum(map(len, case["sinks"].values())), pipes=s.count("|"), substitutions=s.count(">&"),
                   loose_sinks=len(case["loose"] & set(case["sinks"])), gotos=len(re.findall(r"goto L", s)),
                   inputs=len(case["given"]))
            if bad:
                what = bad if isinstance(bad, str) else "%s holds %s instead of %s" % (bad[0], str(bad[2])[:300], str(bad[1])[:300])
                ck.violation("random/%s" % ck.rng("c", i).random(), what,
                             {"script": s, "files": case["files"], "bad": bad, "result": res.brief(), "index": i})
            if i < 2:
                ck.samples.append({"script": s[:600]})
    ck.finish(min_eval=50)


main(body)
