"""P04: marker traces of generated programs against an interpreter of the documented sequencing semantics."""
import sys
from vt.check import Check, main
from vt import build, run, bat, prog


def script(r, trees, nfile):
    """The text of a script running the trees, and its expected trace."""
    t = prog.Text(r)
    w = prog.World()
    it = prog.Interp(w)
    lines, exp = ["@echo off"], []
    for n, s in enumerate(trees):
        lines.append("echo @#%d#" % n)
        lines.append("call :s 0 %d" % (n % 3))
        o = ["0=0"]
        w.el = n % 3
        text = t.seq(s)
        lines += [text, "call :e"]
        it.run(w, s, o, [])
        exp.append((n, text, o + ["end=%d" % w.el]))
    lines.append("echo @#1000#")
    fin = []
    for v in "vwxy":
        lines.append("if defined %s (echo %s=%%%s%%) else echo %s undefined" % (v, v, v, v))
        fin.append("%s=%s" % (v, w.vars[v]) if v in w.vars else "%s undefined" % v)
    for f in range(nfile):
        lines.append("if exist f%d.txt (echo file %d & type f%d.txt) else echo no file %d" % (f, f, f, f))
        if f in w.files:
            fin.append("file %d" % f)
            fin.extend(w.files[f])
        else:
            fin.append("no file %d" % f)
    exp.append((1000, "(final state)", fin))
    lines.append("echo @#9999#")
    return "\n".join(lines) + prog.TAIL + ":e\necho end=%errorlevel%\ngoto :eof\n", exp, w


def norm(ls):
    return [l.rstrip() for l in ls if l.strip()]


def judge(variant, res, exp):
    """(key, text) of what is wrong, or None."""
    if res.timeout:
        return "hang", "the script did not end"
    if res.crashed or (variant != "plain" and res.sanitizer()):
        return "crash:%s:%s" % (res.rc, res.sanitizer()), "crash or sanitizer report"
    got = bat.outputs(res.out)
    for k, text, o in exp:
        m = got.get(k)
        g = None if m is None else norm(m.split("\n"))
        if g != o:
            return "trace:%d" % k, "%r: expected %r, got %r" % (text, o, g)


def fn():
    c = Check("P04", "exploration",
              "distinct: hash of the top-level statement together with its expected trace; nontrivial: at least two "
              "commands take part",
              ["FIND prints the lines holding its text and returns whether there was one (P16 decides that)",
               "IF or FOR directly followed by a pipe on the left of one is outside the domain"])
    probe = build.helper("probe")
    env = run.base_env(EXITP=probe, PROBE="q")

    def trees(i, variant):
        r = c.rng(variant, i)
        depth = r.choice([1, 2, 2, 3, 3, 4])
        g = prog.Gen(r, depth, probe=True)
        return [g.seq(depth) for _ in range(r.choice([1, 2, 3, 5]))], g.nfile

    def execute(b, ts, nf, salt):
        text, exp, w = script(c.rng("text", salt), ts, nf)
        d = c.arena.case_dir({"t.bat": text})
        res = (run.run if "--shrink" in sys.argv else c.run)([bat.pbat(b), "t.bat"], d, env=env,
                                                             timeout=4 if "--shrink" in sys.argv else 20)
        c.arena.drop(d)
        return text, exp, w, res

    for variant, n in [("plain", c.n(1500, 25000)), ("asan", c.n(250, 4000))]:
        b = build.build(variant)

        def one(i):
            ts, nf = trees(i, variant)
            return (ts, nf) + execute(b, ts, nf, i)

        for i, (ts, nf, text, exp, w, res) in c.pmap(one, range(n)):
            for k, v in w.cov.items():
                c.count(k, v)
            for k, st, o in exp:
                c.saw((st, tuple(o)), len(o) > 2, sample={"statement": st, "trace": o} if i % 400 == 7 else None)
            bad = judge(variant, res, exp)
            if bad and "--shrink" in sys.argv:
                again = True
                while again:
                    again = False
                    for v in prog.variants(ts):
                        if not prog.ok(v):
                            continue
                        text2, exp2, w2, res2 = execute(b, v, nf, i)
                        if judge(variant, res2, exp2):
                            ts, text, exp, res, again = v, text2, exp2, res2, True
                            break
                bad = judge(variant, res, exp) or bad
                print(variant, i, bad, res.err[-300:].decode(), "\n", text.split(prog.TAIL)[0], "\n-----", flush=True)
            if bad:
                c.violation("%s:%s/%d" % (bad[0].split(":")[0], variant, i), bad[1], {"script": text, **res.brief(4000)})
    c.finish(100)


main(fn)
