"""P13: COPY, MOVE and REN put every content exactly where they were told and lose none."""
import os
from vt import build, run, bat, fscase
from vt.check import Check, main

VERBS = ["copy", "copy", "copy", "move", "move", "ren", "copyr", "mover"]


def full(c):
    """The disk gets full in the middle: reported, and nothing but the destination is touched."""
    b = build.build("plain")
    pre = build.helper("shortio", ("-shared", "-fPIC"))

    def one(i):
        r = c.rng("full", i)
        data = [bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 5, 2047, 2048, 2049, 5000, 9000]))) for _ in range(3)]
        cat = r.random() < .4
        src = ["a", "b"] if cat else ["a"]
        total = sum(len(data["abc".index(s)]) for s in src)
        dest = r.choice(["c", "new", "d/", "d"])
        if cat and dest == "d/":
            dest = "d/q"
        if cat and dest == "d":
            dest = "c"
        room = r.choice([0, 1, total // 2, max(0, total - 1), total, total + 1, r.randint(0, total)])
        cmd = "copy /y %s %s" % ((r.choice([" + ", " "]) if cat else "").join(src), dest)
        script = "@echo off\n%s\necho @%%errorlevel%%@\n" % cmd
        d = c.arena.case_dir({"t.bat": script, "a": data[0], "b": data[1], "c": data[2], "d/z": b"z"})
        env = run.base_env(LD_PRELOAD=pre, VT_FULL=str(room))
        if r.random() < .5:
            env["VT_SHORT"] = str(i)
        res = c.run([bat.pbat(b), "t.bat"], d, env=env, timeout=20)
        got = {}
        for p, _, fs in os.walk(d):
            for f in fs:
                q = os.path.join(p, f)
                with open(q, "rb") as fh:
                    got[q[len(d) + 1:]] = fh.read()
        c.arena.drop(d)
        got.pop("t.bat")
        return data, src, dest, total, room, cmd, res, got

    for i, (data, src, dest, total, room, cmd, res, got) in c.pmap(one, range(c.n(250, 4000))):
        target = "d/a" if dest in ("d", "d/") else dest
        want = b"".join(data["abc".index(s)] for s in src)
        c.saw(("full", cmd, total, room), room < total)
        c.count("disk full" if room < total else "disk just large enough")
        bad = None
        el = res.out.partition(b"@")[2].partition(b"@")[0]
        rest = {"a": data[0], "b": data[1], "c": data[2], "d/z": b"z"}
        for p, x in rest.items():
            if p != target and got.get(p) != x:
                bad = "%s changed" % p
        if set(got) - set(rest) - {target}:
            bad = "files appeared: %s" % (set(got) - set(rest))
        if res.timeout or res.crashed or not el:
            bad = "rc %s timeout %s" % (res.rc, res.timeout)
        elif room < total and el == b"0":
            bad = "success reported although only %d of %d bytes could be written" % (room, total)
        elif room >= total and (el != b"0" or got.get(target) != want):
            bad = "it fits, error level %s, %s" % (el, "content right" if got.get(target) == want else "wrong content")
        if bad:
            c.violation("full:%d" % i, "%r with room for %d bytes: %s" % (cmd, room, bad), res.brief())


def fn():
    c = Check("P13", "exploration", "distinct: hash of the command, its directory and the tree; nontrivial: the command changes the tree",
              ["cases whose outcome depends on the order in which a directory is read are outside the domain, "
               "except for the order in a concatenation"])
    if c.want("tree"):
        fscase.drive(c, [("plain", c.n(1300, 25000)), ("short", c.n(200, 4000)), ("asan", c.n(150, 3000))], VERBS, 8)
    if c.want("full"):
        full(c)
    c.finish(100)


main(fn)
