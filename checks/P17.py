"""P17: DUMP shows every element of its input, with the right value, characters and address."""
import math, os, struct
from vt.check import Check, main
from vt import build, run

TYPES = {"c": ("b", 4), "uc": ("B", 3), "s": ("h", 6), "us": ("H", 5), "i": ("i", 11), "ui": ("I", 10), "ll": ("q", 20),
         "ull": ("Q", 20), "f": ("f", 15), "d": ("d", 24)}
PREC = {"f": 9, "d": 17}
OTHER = 0x110000  # an element that may be shown either way


def value(t, b, hexa):
    fmt, w = TYPES[t]
    if hexa:
        return b[::-1].hex()
    (v,) = struct.unpack("<" + fmt, b)
    if t in PREC:
        if math.isfinite(v):
            return "%0*.*g" % (w, PREC[t], v)
        s = "nan" if math.isnan(v) else "inf"
        return ("-" + s if b[-1] & 0x80 else s).rjust(w)
    return "%0*d" % (w, v)


def dump(data, t, o):
    """the rows, as lists of (text, byte shown or None)"""
    fmt, w = TYPES[t]
    size = struct.calcsize("<" + fmt)
    w = 2 * size if o["h"] else w
    sp = "" if "q" in o["b"] else " "
    n = (80 - (16 + len(sp) if "a" in o["b"] else 0)) // (w + len(sp) + (size if "c" in o["b"] else 0))
    rows = []
    for k in range(0, len(data), n * size):
        part = data[k:k + n * size]
        pad = part + bytes(-len(part) % size)
        els = [value(t, pad[j:j + size], o["h"]) + sp for j in range(0, len(pad), size)]
        row = ("%016x" % k + sp if "a" in o["b"] else "") + "".join(els)
        if "c" in o["b"]:
            row += (" " * w + sp) * (n - len(els))
        rows.append((row, part if "c" in o["b"] else b""))
    return rows


def same(out, pos, rows):
    """how far the output is what the rows say: (position, None) or (position, what differs)"""
    for row, chars in rows:
        b = row.encode() 
        e = pos + len(b) + len(chars)
        if out[pos:pos + len(b)].lower() != b:
            return pos, "row %r shown as %r" % (row, out[pos:pos + len(b) + 20])
        for x, y in zip(chars, out[pos + len(b):e].ljust(len(chars), b"\n")):
            # a character that can be shown is, any other may be a dot or itself, but never a control character
            if not (y == x if 0x20 <= x < 0x7f else y == 0x2e or (y == x and x >= 0x7f)):
                return pos, "character %02x shown as %02x in row %r" % (x, y, row)
        if out[e:e + 1] != b"\n":
            return e, "the row %r does not end: %r" % (row, out[e:e + 20])
        pos = e + 1
    return pos, None


def content(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 200, 1000, 4096, 5000])
    n += r.choice([0, 0, 0, 1, 2, 3])
    k = r.random()
    if k < 0.35:
        return r.randbytes(n)
    if k < 0.5:
        return bytes(r.choice(b"abcXYZ 0189~!\x7f\x00\n\t\x1f\x80\xff\xc3\xa9") for _ in range(n))
    if k < 0.6:
        return bytes([r.choice([0, 0xff, 0x80, 0x7f, 1])]) * n
    out = b""
    while len(out) < n:
        out += r.choice([lambda: struct.pack("<q", r.choice([0, -1, 1, 2**63 - 1, -2**63, 2**31, -2**31 - 1, r.getrandbits(40)])),
                         lambda: struct.pack("<i", r.choice([0, -1, 2**31 - 1, -2**31, 255, 65536])),
                         lambda: struct.pack("<h", r.choice([0, -1, 32767, -32768, 255])),
                         lambda: struct.pack("<f", r.choice([0.0, -0.0, 1.5, -1e-30, 3.4e38, 1e-45, float("inf"), -float("inf"), float("nan"), r.gauss(0, 1e5)])),
                         lambda: struct.pack("<d", r.choice([0.0, -0.0, 0.1, -2.2e-308, 1.7e308, -5e-324, float("inf"), float("nan"), r.gauss(0, 1e9)]))])()
    return out[:n]


def options(r, cur):
    """some options, as written, and what they change"""
    a = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.choice("thbtb")
        if k == "t":
            cur["t"] = r.choice(list(TYPES))
            s = cur["t"].upper() if r.random() < 0.4 else cur["t"]
            a.append(r.choice(["/T", "/t"]) + r.choice([":", ""]) + s)
        elif k == "h":
            if r.random() < 0.5:
                cur["h"] = True
                a.append(r.choice(["/h", "/H"]))
        else:
            b = "".join(x for x in "atcq" if r.random() < 0.5)
            q = "q" if "q" in cur["b"] else ""
            cur["b"] = b + q
            b = "".join(r.sample(b, len(b)))
            a.append(r.choice(["/B", "/b"]) + r.choice([":", ""]) + (b.upper() if r.random() < 0.5 else b))
    return a


def fn():
    c = Check("P17", "exploration", "distinct: hash of content, type and options; nontrivial: at least one row is shown",
              ["a little-endian machine with IEEE 754 numbers", "characters outside 20-7e may be shown as dots or as they are"])
    bins = {v: build.build(v) for v in ("plain", "asan")}
    short = build.helper("shortio", ("-shared", "-fPIC"))

    def one(i):
        r = c.rng(i)
        v = "asan" if i % 3 == 2 else "plain"
        prog = os.path.join(bins[v], "cmd", "dump")
        cur = {"t": "c", "h": False, "b": "atc"}
        d = c.arena.case_dir({"dir/x": "x"})
        env = run.base_env()
        argv, want, status, how = [], [], 0, ""
        k = r.random()
        if k < 0.4:
            argv = options(r, cur)
            data = content(r)
            open(d + "/in", "wb").write(data)
            want = [(None, dump(data, cur["t"], cur))]
            if r.random() < 0.6:
                cuts = "".join("head -c %d; sleep 0.00%d; " % (r.choice([1, 2, 3, 5, 7, 16, 50, 100]), r.choice([1, 4])) for _ in range(r.randrange(1, 5)))
                cmd = ["/bin/bash", "-c", 'p=$1; shift; (%scat) < in | "$p" "$@"' % cuts, "bash", prog] + argv
                how = "pipe"
            else:
                cmd = ["/bin/bash", "-c", 'p=$1; shift; "$p" "$@" < in', "bash", prog] + argv
                how = "stdin"
        else:
            how = "file"
            nf = r.choice([1, 1, 2, 3])
            for j in range(nf):
                argv += options(r, cur)
                x = r.random()
                name = r.choice(["f%d", "f %d", "é%d", "./f%d"]) % j
                if x < 0.06:
                    name = r.choice(["none", "dir/", "dir", "x/y"])
                    argv.append(name)
                    if status == 0:
                        status = 2
                        want.append((name, "fails"))
                    continue
                data = content(r)
                open(os.path.join(d, name), "wb").write(data)
                argv.append(name)
                if status == 0:
                    want.append((name if "t" in cur["b"] else None, dump(data, cur["t"], cur)))
            if r.random() < 0.05:
                argv.append("/t:" + r.choice(["x", "cc", "u", "dd", "ulll"]))
                status = status or 1
            if v == "plain" and r.random() < 0.6:
                env = run.base_env(LD_PRELOAD=short, VT_SHORT=str(i))
                how = "short reads"
            cmd = [prog] + argv
        res = c.run(cmd, d, env=env, timeout=20)
        c.arena.drop(d)
        return v, how, argv, want, status, res

    for i, (v, how, argv, want, status, res) in c.pmap(one, range(c.n(4000, 80000))):
        rep = {"arguments": argv, "by": how, "variant": v, "expected": [(n, w if w == "fails" else w[:20]) for n, w in want], **res.brief()}
        rows = sum(len(w) for _, w in want if w != "fails")
        c.saw((argv, want), nontrivial=rows > 0, rows=rows, files=len(want), asan=int(v == "asan"), **{how.replace(" ", "_"): 1})
        if res.timeout or res.crashed or res.sanitizer() or res.rc > 2:
            c.violation("abnormal/%d" % i, "hang" if res.timeout else res.sanitizer() or "status %d" % res.rc, rep)
            continue
        pos, bad = 0, None
        for name, w in want:
            if name is not None:
                t = b"%s -----------------\n" % name.encode()
                if w == "fails":
                    pos += len(t) if res.out[pos:] == t else 0
                    break
                if res.out[pos:pos + len(t)] != t:
                    bad = "the title is %r" % res.out[pos:pos + 60]
                    break
                pos += len(t)
            pos, bad = same(res.out, pos, w)
            if bad:
                break
        if not bad and pos != len(res.out):
            bad = "shows more: %r" % res.out[pos:pos + 60]
        if not bad and res.rc != status:
            bad = "status %r instead of %d" % (res.rc, status)
        if not bad and bool(res.err) != bool(status):
            bad = "errors: %r" % res.err[:100]
        if i in (0, 5, 9):
            c.samples.append({"arguments": argv, "by": how, "first rows": [x for _, w in want if w != "fails" for x in w[:2]]})
        if bad:
            c.violation("dump/%d" % i, "dump %s (%s): %s" % (" ".join(argv), how, bad), rep)
    c.finish(1000)


if __name__ == "__main__":
    main(fn)
