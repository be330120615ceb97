"""Helpers shared by the checks that run generated scripts against a reference model."""
import os, re

MARK = "@#"


def outputs(text):
    """Split an output on its '@#<n>#' marker lines: {n: text up to the next marker}."""
    if isinstance(text, bytes):
        text = text.decode("utf-8", "surrogateescape")
    out = {}
    parts = re.split(r"@#(\d+)#\n", text)
    for i in range(1, len(parts) - 1, 2):
        out[int(parts[i])] = parts[i + 1]
    return out


def pbat(bindir):
    return os.path.join(bindir, "pbat")


# ---- expressions with * and ?
def segs(pat):
    return re.sub(r"[*?]*\*[*?]*", "*", pat)


def rx_any(pat, s, fl):
    return re.fullmatch("".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in pat), s, fl | re.S) is not None


def rx_short(pat, s, fl):
    """* takes the shortest sequence after which what is up to the next joker fits; no backtracking."""
    i, star = 0, False
    for p in re.findall(r"[*?]|[^*?]+", pat):
        if p == "*":
            star = True
            continue
        m = re.compile("." if p == "?" else re.escape(p), fl | re.S)
        m = m.search(s, i) if star else m.match(s, i)
        if not m:
            return False
        i, star = m.end(), False
    return star or i == len(s)


def rmatch(pat, s, icase):
    """True, False or None where the manual's rule (shortest) and the general meaning of * differ."""
    fl = re.I | re.A if icase else 0
    p = segs(pat)
    a, b = rx_any(p, s, fl), rx_short(p, s, fl)
    return a if a == b else None
