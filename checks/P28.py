"""P28: the line edited at the terminal is the one that is read, and the one shown."""
import concurrent.futures, multiprocessing, os, termios
from vt.check import Check, main
from vt import build, run, bat, tty

CHARS = ["abcdefgh XYZ019", "abc def", "aé ßñ", "漢字かな b", "한글 c", "😀 de🚀", "e\u0301a\u0300 x", "Жя b"]
ANY = "".join(chr(c) for c in range(32, 127))
LIMIT = 4095


def clusters(s):
    """characters with their combining marks"""
    out = []
    for ch in s:
        if tty.width(ch) == 0 and out:
            out[-1] += ch
        else:
            out.append(ch)
    return out


def size(t):
    return sum(len(g.encode()) for g in t)


class Line:
    """the editor"""

    def __init__(self, hist):
        self.t, self.pos, self.h, self.idx = [], 0, hist, 0
        if not (hist and hist[-1] == []):
            hist.append([])
            del hist[:-100]

    def insert(self, ch):
        if size(self.t) + len(ch.encode()) <= LIMIT:
            if tty.width(ch) == 0 and self.pos:
                self.t[self.pos - 1] += ch
            elif tty.width(ch):
                self.t.insert(self.pos, ch)
                self.pos += 1

    def key(self, k):
        t, p = self.t, self.pos
        if k == "left":
            self.pos = max(0, p - 1)
        elif k == "right":
            self.pos = min(len(t), p + 1)
        elif k == "home":
            self.pos = 0
        elif k == "end":
            self.pos = len(t)
        elif k == "bs":
            if p:
                del t[p - 1]
                self.pos -= 1
        elif k == "del":
            if p < len(t):
                del t[p]
        elif k == "^U":
            self.t, self.pos = [], 0
        elif k == "^K":
            del t[p:]
        elif k == "^W":
            # blanks with marks are blanks, and marks are not
            u = "".join(t[:p])
            q = len(u)
            while q and u[q - 1] == " ":
                q -= 1
            while q and u[q - 1] != " ":
                q -= 1
            self.pos = len(clusters(u[:q]))
            t[:p] = clusters(u[:q])
        elif k == "^T":
            if 0 < p < len(t):
                t[p - 1], t[p] = t[p], t[p - 1]
                if p != len(t) - 1:
                    self.pos += 1
        elif k in ("up", "down") and len(self.h) > 1:
            self.h[-1 - self.idx] = list(t)
            i = self.idx + (1 if k == "up" else -1)
            if 0 <= i < len(self.h):
                self.idx = i
                self.t = list(self.h[-1 - i])
                self.pos = len(self.t)

    def enter(self):
        self.h.pop()
        if not (self.h and self.h[-1] == self.t):
            self.h.append(list(self.t))
            del self.h[:-100]
        return "".join(self.t)


KEYS = {"left": [b"\x02", b"\x1b[D"], "right": [b"\x06", b"\x1b[C"], "home": [b"\x01", b"\x1b[H", b"\x1bOH"], "end": [b"\x05", b"\x1b[F", b"\x1bOF"],
        "bs": [b"\x7f", b"\x08"], "del": [b"\x1b[3~", b"\x04"], "^U": [b"\x15"], "^K": [b"\x0b"], "^W": [b"\x17"], "^T": [b"\x14"],
        "up": [b"\x10", b"\x1b[A"], "down": [b"\x0e", b"\x1b[B"], "ignored": [b"\x1b[5~", b"\x1b[6~", b"\x1b[2~", b"\xff", b"\x80", b"\xbf\xbf"], "^L": [b"\x0c"]}
MOVES = ["left"] * 6 + ["right"] * 4 + ["home", "end", "bs", "bs", "bs", "del", "del", "^U", "^K", "^W", "^W", "^T", "up", "up", "up", "down", "down", "ignored", "^L"]


def tree(r):
    stem = ["al", "be", "é", "è", "漢字", "漢", "Al", "x_", "gamma", "ab-"]
    names = set()
    for i in range(r.randrange(3, 12)):
        n = "".join(r.choice(stem) for _ in range(r.randrange(1, 4)))
        if r.random() < 0.3:
            n += "." + r.choice(["txt", "c", "é"])
        if r.random() < 0.15:
            n = n[0] + " " + n[1:] + "q"
        names.add(n)
    if r.random() < 0.1:
        # as wide as the list
        k = r.choice([38, 39, 40, 77, 78, 79, 80, 81, 82, 120])
        names |= {"w" * (k - 1) + c for c in "12"}
    if r.random() < 0.08:
        names |= {"many%02d" % i for i in range(25)}
    dirs = {n for n in names if r.random() < 0.25 and "." not in n}
    t = {}
    for n in names:
        if n in dirs:
            for j in range(r.randrange(0, 4)):
                t[n + "/" + "".join(r.choice(stem) for _ in range(r.randrange(1, 3)))] = "x"
        else:
            t[n] = "x"
    return t, sorted(dirs)


def common(names):
    p = names[0]
    for n in names[1:]:
        while not n.startswith(p):
            p = p[:-1]
    return p


class Bad(Exception):
    pass


def work(d, r, exe, mode, a):
    seq = 2 if mode == "long" else 130 if r.random() < 0.03 else r.choice((4, 12, 12, 25, 25, 60) if not a else (4, 12, 20))
    return session(ARENA, d, r, exe, mode, seq) + (None,)


def session(arena, d, r, exe, mode, seq):
    """One session; returns counts; raises Bad"""
    cols = r.choice((20, 33, 40, 80, 80, 80, 132))
    files, dirs = tree(r)
    if mode == "long":
        long_names = {x * r.randrange(20, 250) for x in "quv"}
        files, dirs = {x: "" for x in long_names}, []
    prompt = r.choice(["", "? ", "ask: ", "naïve: ", "漢字: ", "type something here, quickly: "])
    script = "@echo off\nfor /l %%%%i in (1,1,%d) do (\nset zq=undef\nset /p zq=%s\n>>log.out echo #%%%%i\n>>log.out set zq\n)\n" % (seq, prompt)
    arena.case_dir(dict(files, **{"s.cmd": script, "log.out": ""}), dirs, d=d)
    names = {x.split("/")[0] for x in files} | set(dirs) | {"s.cmd", "log.out"}
    inside = {k: {x.split("/")[1] for x in files if x.startswith(k + "/")} for k in dirs}
    counts = {"lines": 0, "keys": 0, "shown": 0, "completed": 0, "listed": 0, "recalled": 0, "unique": 0}
    s = tty.Session([exe] + (["s.cmd"] if mode != "prompt" else []), d, cols)
    s.light = mode == "long"
    hist, want, trace = [], [], []
    logged = False

    def need(ok, what):
        if not ok:
            raise Bad(what)
    try:
        for n in range(seq):
            q = n + 1
            need(s.until(lambda: s.scr.asked >= q and not s.todo, 120 if mode == "long" else 20), "no line is asked for (line %d)" % n)
            ln = Line(hist)
            x0, y0, exact = s.scr.x, s.scr.y, not s.scr.wrap and mode != "long"
            keys = []
            trace.append(keys)
            alpha = r.choice(CHARS) if mode == "prompt" or r.random() < 0.7 else ANY
            target = r.choice((3, 8, 16, 30, 40)) if r.random() < 0.9 else 0
            if mode == "long":
                # as long as lines may be, and again from the history
                target = 30
                if n:
                    keys.append("up")
                    ln.key("up")
                top = LIMIT if r.random() < 0.7 else r.randrange(1000, LIMIT)
                while not n and size(ln.t) < top:
                    w = r.choice(sorted(long_names))
                    keys += [w[0], "tab"]
                    ln.insert(w[0])
                    if size(ln.t) + len(w) - 1 <= LIMIT:
                        for ch in w[1:]:
                            ln.insert(ch)
                    ch = r.choice(alpha + " ")
                    for z in (" ", ch, " ") if tty.width(ch) else " ":
                        keys.append(z)
                        ln.insert(z)
            blind = r.random() < 0.3
            for k in range(target):
                u = r.random()
                if u < 0.55 or k < 3:
                    run_ = r.choice((1, 1, 2, 5, 9)) if r.random() < 0.97 or mode == "prompt" else r.choice((cols, 2 * cols - x0, 120))
                    for ch in (r.choice(alpha) for _ in range(run_)):
                        if tty.width(ch) == 0 and not ln.pos:
                            continue
                        keys.append(ch)
                        ln.insert(ch)
                elif u < 0.62 and mode != "long":
                    if not ln.t or ln.pos == 0 or ln.t[ln.pos - 1] not in " ":
                        keys.append(" ")
                        ln.insert(" ")
                    before, after = "".join(ln.t[:ln.pos]), "".join(ln.t[ln.pos:])
                    if '"' in before + after or "&" in before or "|" in before:
                        continue
                    pool, dn = names, ""
                    if inside and r.random() < 0.3:
                        dn = r.choice(sorted(inside))
                        pool, dn = inside[dn], dn + "/"
                    cand = r.choice(sorted(pool) + ["zz"]) if pool else "zz"
                    typed = cand[:r.randrange(0 if dn else 1, len(cand) + 1)]
                    if r.random() < 0.07 and len(pool) < 20:
                        typed += r.choice(["q", "Z", "**", "?"])
                    quote = " " in dn + typed or r.random() < 0.2
                    if after and not after.startswith(" ") and quote:
                        continue
                    item = ('"' if quote else "") + dn + typed
                    if typed.strip("*?") != typed or " " in typed and not quote or typed.endswith(" "):
                        # patterns are only required to do no harm: the line is given up afterwards
                        wild = typed.strip("*?") != typed
                        if not wild:
                            continue
                    else:
                        wild = False
                    for ch in item:
                        keys.append(ch)
                        ln.insert(ch)
                    hits = sorted(x for x in pool if x.startswith(typed))
                    # matching may depend on the case or not
                    wild = wild or hits != sorted(x for x in pool if x.casefold().startswith(typed.casefold()))
                    if wild:
                        keys += ["tab", "^U"]
                        ln.key("^U")
                        exact = False
                        continue
                    if len(hits) > 20:
                        for ch in item:
                            keys.append("bs")
                            ln.key("bs")
                        continue
                    keys.append("tab")
                    listed = False
                    if hits:
                        ext = common(hits)[len(typed):]
                        for ch in clusters(ext):
                            for z in ch:
                                ln.insert(z)
                        if not ext and len(hits) > 1:
                            # the list is shown, and the line again below
                            counts["listed"] += 1
                            listed = True
                        else:
                            counts["completed"] += 1
                    if listed:
                        # all of them are shown, and the line again below
                        begin = len(s.raw)
                        s.send(encode(r, keys))
                        if mode == "prompt" and exact:
                            def again():
                                for y in range(max(0, s.scr.y - 30), s.scr.y + 1):
                                    if y > y0 and tty.shows(s.scr, y, x0, ln.t, ln.pos):
                                        return y
                            need(s.until(lambda: again() is not None), "line %d: the line is not shown again after the list of what completes %r: %r" %
                                 (n, item, [s.scr.text(y) for y in range(max(0, s.scr.y - 8), len(s.scr.rows))]))
                            y0 = again()
                        else:
                            exact = False
                        need(s.until(lambda: all(x.encode() in s.raw[begin:] for x in hits)), "line %d: not all that completes %r is listed" % (n, item))
                else:
                    m = r.choice(MOVES)
                    if m == "^L":
                        if mode == "long":
                            continue
                        y0 = 0
                    if m == "del" and not ln.t:
                        continue
                    if m == "^W" and ln.t and any(len(g) > 1 for g in ln.t):
                        pass
                    if m == "up" and len(hist) > 1:
                        counts["recalled"] += 1
                    keys.append(m)
                    ln.key(m)
                if not blind and r.random() < 0.4 and mode != "long":
                    b = encode(r, keys)
                    s.send(b, [r.randrange(len(b))] if b and r.random() < 0.3 else None)
                    if exact:
                        need(s.until(lambda: tty.shows(s.scr, y0, x0, ln.t, ln.pos)),
                             "line %d: after %r the line %r with the cursor at %d is shown as %r with the cursor in %d,%d" %
                             (n, last(keys), "".join(ln.t), ln.pos, [s.scr.text(y) for y in range(y0, min(len(s.scr.rows), y0 + 6))], s.scr.x, s.scr.y - y0))
                        counts["shown"] += 1
            # end of the line
            if mode == "prompt":
                # something that does no harm
                for m in ("home",):
                    keys.append(m)
                    ln.key(m)
                for ch in "echo [":
                    keys.append(ch)
                    ln.insert(ch)
                keys.append("end")
                ln.key("end")
                for ch in "]":
                    keys.append(ch)
                    ln.insert(ch)
            if exact:
                s.send(encode(r, keys))
                need(s.until(lambda: tty.shows(s.scr, y0, x0, ln.t, ln.pos), 20),
                     "line %d: after %r the line %r with the cursor at %d is shown as %r with the cursor in %d,%d" %
                     (n, last(keys), "".join(ln.t), ln.pos, [s.scr.text(y) for y in range(y0, min(len(s.scr.rows), y0 + 6))], s.scr.x, s.scr.y - y0))
                counts["shown"] += 1
            start = len(s.raw)
            eof = mode == "set" and not ln.t and r.random() < 0.3
            s.send(encode(r, keys) + (b"\x04" if eof else b"\r"))
            counts["lines"] += 1
            counts["keys"] += len(keys)
            if eof:
                hist.pop()
                want.append("")
            else:
                want.append(ln.enter())
            if mode == "prompt":
                need(s.until(lambda: s.scr.asked >= q + 1, 20), "no prompt after %r" % want[-1])
                out = bytes(s.raw[start:]).partition(b"\r\n")[2]
                exp = want[-1][5:].encode() + b"\r\n"
                need(out.startswith(exp) or not exact and b"\r\n" + exp in s.raw[start:], "line %d: %r is run as something that shows %r" % (n, want[-1], out[:len(exp) + 60]))
        if mode == "prompt":
            # programs find the terminal as it was
            start = len(s.raw)
            s.send(b"/bin/stty -g\r")
            q += 1
            need(s.until(lambda: s.scr.asked >= q + 1, 20), "no prompt after stty")
            need(s.state in bytes(s.raw[start:]), "the terminal is not as it was while programs are run: %r, not %r" % (bytes(s.raw[start:])[-300:], s.state))
            # a block of some lines, each of which is edited
            start = len(s.raw)
            for x in ("if 1==1 (", "echo [block", ")"):
                q += 1
                x0, y0, exact = s.scr.x, s.scr.y, not s.scr.wrap
                for a in x:
                    s.send(b"z\x02" + a.encode() + b"\x04")
                need(not exact or s.until(lambda: tty.shows(s.scr, y0, x0, list(x), len(x))), "%r of a block is not shown" % x)
                s.send(b"\r")
                need(s.until(lambda: s.scr.asked >= q + 1, 20), "no prompt after %r of a block" % x)
            need(s.raw[start:].count(b"\r\n[block\r\n") == 1, "the block was not run")
            for x in (")", "echo [block", "if 1==1 (") if s.scr.x + 13 < cols else ():
                s.send(b"\x1b[A")
                need(s.until(lambda: tty.shows(s.scr, s.scr.y, s.scr.x - len(x), list(x), len(x))), "the history has no %r" % x)
            s.send(b"\x15")
        if mode != "prompt":
            s.until(lambda: s.p.poll() is not None, 120 if mode == "long" else 20)
            with open(os.path.join(d, "log.out"), encoding="utf-8", errors="surrogateescape", newline="\n") as fh:
                got = fh.read()
            exp = "".join("#%d\n" % (i + 1) + ("zq=%s\n" % w if w else "") for i, w in enumerate(want))
            if got != exp:
                g, w = got.split("\n"), exp.split("\n")
                i = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
                raise Bad("the line %r is read as %r" % (w[i][:300] if i < len(w) else None, g[i][:300] if i < len(g) else None))
        else:
            s.send(b"exit\r")
            s.until(lambda: s.p.poll() is not None, 20)
        need(s.p.poll() is not None, "the interpreter does not end")
        if s.p.returncode < 0 or s.p.returncode > 125 or b"Sanitizer" in s.raw:
            raise Bad("the interpreter ends with status %d: %r" % (s.p.returncode, bytes(s.raw[-600:])))
        need(termios.tcgetattr(s.slave) == s.before, "the terminal is not left as it was found")
        need(not s.scr.strange, "strange output %r" % s.scr.strange[:3])
    except Bad as e:
        code = s.p.poll()
        note = ""
        i = s.raw.find(b"ERROR: ")
        if i >= 0:
            note = bytes(s.raw[i:i + 1500]).decode("utf-8", "replace")
        raise Bad("%s%s" % (e, "" if code is None else " (ended with status %d)" % code), {"mode": mode, "cols": cols, "files": sorted(files), "keys": trace[-1] if trace else [],
                  "line": len(trace), "all": trace, "raw": bytes(s.raw[-1500:]).decode("utf-8", "replace"), "report": note})
    finally:
        s.close()
        arena.drop(d)
    return counts, (cols, str(trace))


def last(keys):
    return [k for k in keys if k][-6:]


def encode(r, keys):
    """the keys that have not been sent yet"""
    i = len(keys)
    while i and keys[i - 1] is not None:
        i -= 1
    out = b"".join(b"\t" if k == "tab" else r.choice(KEYS[k]) if k in KEYS else k.encode() for k in keys[i:])
    if i < len(keys):
        keys.append(None)
    return out


def fn():
    c = Check("P28", "exploration", "distinct: hash of the keys of a session and the width of the terminal; nontrivial: lines were read and shown",
              ["keys typed while no line is asked for are outside the domain (the terminal is flushed), so are Ctrl-C, invalid UTF-8 and NUL"])
    plain, asan = bat.pbat(build.build("plain")), bat.pbat(build.build("asan"))

    def jobs():
        for n in range(c.n(100, 4000)):
            yield n, "prompt" if n % 5 == 1 else "long" if n % 20 == 7 else "set", n % 4 == 3

    # the terminals are processes of their own
    global ARENA
    ARENA = c.arena
    pool = concurrent.futures.ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("fork"))
    pool.submit(int).result()

    def one(j):
        n, mode, a = j
        e = None
        for t in range(3 if len(c.viol) < 4 else 1):
            try:
                return pool.submit(work, c.arena.next_dir(), c.rng("session", n), asan if a else plain, mode, a).result()
            except Bad as x:
                e = x
        return {}, None, e
    for (n, mode, a), (counts, key, e) in c.pmap(one, jobs()):
        c.saw(key or n, nontrivial=counts.get("lines", 0) > 0, **{"sessions_" + mode: 1, "asan": int(a)}, **counts)
        if key and len(c.samples) < 4:
            c.samples.append({"keys of a session": key[1][:600]})
        if e is not None:
            c.violation("%s/%d" % (mode, n), e.args[0], e.args[1] if len(e.args) > 1 else {})
    pool.shutdown()
    c.finish(100)


if __name__ == "__main__":
    main(fn)
