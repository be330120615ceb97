"""P18: TEA turns documents into text, ANSI, Markdown and HTML that hold the same blocks, words, emphases and links."""
import glob, html.parser, os, re
from vt.check import Check, main
from vt import build, run

WIDTH = 79
FORMATS = ["TEXT", "TEXT-PLAIN", "TEXT-ANSI", "MD", "HTML"]


# ---------------------------------------------------------------- the source, by the rules of tea_syntax
class Unended(Exception):
    pass


def unescape(s):
    return re.sub(r"\\(.?)", r"\1", s, flags=re.S)


def find(s, c, k=0):
    while k < len(s):
        if s[k] == "\\":
            k += 2
        elif s[k] == c:
            return k
        else:
            k += 1
    return -1


def parse(src):
    """the blocks: ("h", text), ("c", level, text) and ("p", level, marked, [(kind, text, target)])"""
    src = "".join(x for x in src.splitlines(True) if not x.startswith("#"))
    raw, k = [], 0
    while True:
        m = re.search(r"\{\{|\$\{", src[k:])
        if not m:
            raw.append(("p", src[k:]))
            break
        raw.append(("p", src[k:k + m.start()]))
        k += m.end()
        if m.group() == "{{":
            e = src.find("}}", k)
            if e < 0:
                raise Unended
            raw.append(("h", src[k:e]))
            k = e + 2
        else:
            e, deep = k, 0
            while e < len(src) and (src[e] != "}" or deep):
                deep += {"{": 1, "}": -1}.get(src[e], 0)
                e += 2 if src[e] == "\\" else 1
            if e >= len(src):
                raise Unended
            raw.append(("c", src[k:e]))
            k = e + 1
    out, level = [], 0
    for kind, t in raw:
        if kind == "h":
            if t.strip():
                out.append(("h", " ".join(unescape(t).split())))
                level = 0
        elif kind == "c":
            if t.strip():
                out.append(("c", level, (t[1:] if t[:1] == "\n" else t).replace("\t", " ")))
        else:
            for par in re.split(r"\n[ \t]*\n", t):
                par = par.lstrip(" \t\n")
                if not par:
                    continue
                m = re.match(r"(@?)(-*)", par)
                level = len(m.group(2))
                nodes = inline(par[m.end():]) if par[m.end():].strip() else []
                marked = bool(level) and not m.group(1)
                if marked or any(x or y is not None for _, x, y in nodes):
                    out.append(("p", level, marked, nodes))
    return out


def inline(t):
    nodes, k = [], 0
    while True:
        e = find(t, "{", k)
        if e < 0:
            nodes.append(("t", t[k:], None))
            break
        nodes.append(("t", t[k:e], None))
        k = e + 1
        e = find(t, "}", k)
        if e < 0:
            raise Unended
        b = find(t[k:e], "|")
        nodes.append(("e", t[k:e], None) if b < 0 else ("l", t[k + b + 1:e], t[k:k + b]))
        k = e + 1
    return [(a, unescape(b), c and unescape(c)) for a, b, c in nodes if b or c is not None]


MARKS = {"e": ("\x01", "\x02"), "l": ("\x03", "\x04"), "t": ("", "")}


def flat(nodes):
    """one text with marks around emphases and links, blanks collapsed, in a form that does not depend on which side
    of a mark a blank stands"""
    s = "".join("%s%s%s%s" % (MARKS[k][0], t, MARKS[k][1], "<%s>" % g.strip() if k == "l" else "") for k, t, g in nodes)
    return norm(s)


def norm(s):
    # what has no text is not shown by all formats
    s = re.sub("\x03[ \t\n]*\x04<[^>]*>", "", s)
    s = re.sub(r"[ \t\n]+([\x01\x03])[ \t\n]*", r" \1", re.sub(r"([\x01\x03])[ \t\n]+", r" \1", s))
    s = re.sub(r"[ \t\n]*(\x02|\x04<[^>]*>)[ \t\n]+", r"\1 ", re.sub(r"[ \t\n]+(\x02|\x04)", r"\1 ", s))
    return re.sub(r"[ \t\n]+", " ", s).strip().replace("\x01\x02", "")


# ---------------------------------------------------------------- text
def words_in(want, got, room):
    """are these words those, where a word longer than the room may be broken?"""
    j, whole = 0, set()
    for w in want:
        if j < len(got) and got[j] == w:
            whole.add(j)
            j += 1
            continue
        if len(w) <= room:
            return "word %r shown as %r" % (w, got[j] if j < len(got) else None), whole
        x = ""
        while len(x) < len(w) and j < len(got):
            x += got[j]
            j += 1
        if x != w:
            return "word %r shown as %r" % (w, x), whole
    if j < len(got):
        return "more words: %r" % got[j:j + 5], whole
    return None, whole


def check_lines(lines, first, rest, want, room, what):
    """a block of running text"""
    for j, x in enumerate(lines):
        m = first if j == 0 else rest
        if len(x.rstrip()) > WIDTH:
            return "%s: a line of %d columns: %r" % (what, len(x), x)
        if len(x) - len(x.lstrip(" ")) != m:
            return "%s: margin of line %d is not %d: %r" % (what, j, m, x)
    bad, whole = words_in(want, [w for x in lines for w in x.split(" ") if w], room)
    if bad:
        return "%s: %s" % (what, bad)
    n = 0
    for j in range(len(lines) - 1):
        n += len(lines[j].split())
        nxt = lines[j + 1].split()[0]
        # (marks may be counted with the words they touch)
        if n in whole and len(lines[j].rstrip()) + 1 + len(nxt) < WIDTH - 8:
            return "%s: line %d is broken too early: %r before %r" % (what, j, lines[j], nxt)
    return None


def check_text(fmt, blocks, out):
    if fmt == "TEXT-ANSI":
        bad = check_colours(blocks, out)
        if bad:
            return bad
        out = re.sub(r"\x1b\[\d+m", "", out)
    out = out.replace(" (<>)", "")
    lines = out.split("\n")
    k = 0
    for b in blocks:
        if b[0] == "c":
            margin = 8 + 4 * b[1]
            for src in b[2].split("\n"):
                if k >= len(lines):
                    return "the block of code ends early, at %r" % src
                if len(src) + margin <= WIDTH - 2:
                    if lines[k].rstrip(" ") != (" " * margin + src).rstrip(" "):
                        return "line of code %r shown as %r" % (src, lines[k])
                    k += 1
                    continue
                got, want = [], src.split()
                j = k
                while k < len(lines) and sum(map(len, got)) < sum(map(len, want)):
                    if len(lines[k].rstrip()) > WIDTH:
                        return "code: a line of %d columns" % len(lines[k])
                    got += lines[k].split()
                    k += 1
                bad, _ = words_in(want, got, WIDTH - margin - 2)
                if bad:
                    return "code %r: %s (%r)" % (src, bad, lines[j:k])
        else:
            j = k
            while k < len(lines) and lines[k].strip():
                k += 1
            if b[0] == "h":
                t = b[1]
                if fmt != "TEXT-ANSI":
                    t = re.sub("[a-z]+", lambda m: m.group().upper(), t)
                bad = check_lines(lines[j:k], 0, 0, t.split(), WIDTH - 2, "title %r" % b[1][:40])
            else:
                m = 4 * (b[1] + 1)
                t = ("-" if b[2] else "") + "".join(
                    s if kind == "t" or fmt != "TEXT" else
                    ("_%s_" % s if kind == "e" else "%s (<%s>)" % (s, g)) for kind, s, g in b[3])
                t = " ".join(t.split()).replace(" (<>)", "")
                bad = check_lines(lines[j:k], m - 2 * b[2], m, t.split(), WIDTH - m - 2, "paragraph %r" % t[:40])
            if bad:
                return bad
        # one empty line ends each block
        if lines[k:k + 1] != [""]:
            return "no empty line after the block %r" % (b,)
        k += 1
    if lines[k:] != [""]:
        return "more text: %r" % lines[k:k + 3]
    return None


def check_colours(blocks, out):
    """emphases, links, titles and code are the text that is coloured, each in the one way of its kind"""
    want = []
    for b in blocks:
        if b[0] == "p":
            want += [(kind, "".join(t.split())) for kind, t, _ in b[3] if kind != "t" and t]
        else:
            want.append((b[0], "".join(b[-1].split())))
    got = re.findall(r"((?:\x1b\[[1-9]\d*m)+)((?:[^\x1b])*)\x1b\[39m\x1b\[0m", out)
    if len(got) != len(want):
        return "%d coloured texts instead of %d" % (len(got), len(want))
    col = {}
    for (kind, t), (c, x) in zip(want, got):
        if "".join(x.split()) != t:
            return "coloured is %r instead of %r" % (x, t)
        if col.setdefault(kind, c) != c:
            return "%r has another colour than its like: %r" % (t, c)
    if len(set(col.values())) != len(col):
        return "same colours for different things: %r" % col
    return None


# ---------------------------------------------------------------- Markdown
def check_md(blocks, out):
    lines = out.split("\n")
    k = 0
    for n, b in enumerate(blocks):
        if b[0] == "h":
            if norm(lines[k]) != norm(("# " if n == 0 else "## ") + b[1]):
                return "title %r shown as %r" % (b[1], lines[k])
            k += 1
        elif b[0] == "c":
            for src in b[2].split("\n"):
                if k >= len(lines) or lines[k].rstrip(" ") != (" " * (4 + 4 * b[1]) + src).rstrip(" "):
                    return "line of code %r shown as %r" % (src, lines[k:k + 1])
                k += 1
        else:
            j = k
            while k < len(lines) and lines[k].strip():
                k += 1
            m = 2 * b[1]
            for i, x in enumerate(lines[j:k]):
                if len(x) - len(x.lstrip(" ")) != m - 2 * (b[2] and i == 0):
                    return "margin of %r is not %d" % (x, m)
            t = " ".join(x.strip(" ") for x in lines[j:k])
            if b[2]:
                if t[:1] != "*":
                    return "the item begins by %r" % t[:5]
                t = t[1:]
            got = norm(md_flat(t))
            want = flat(b[3])
            if any(len(w) > 50 for w in want.split()):
                # words longer than the line are broken
                got, want = got.replace(" ", ""), want.replace(" ", "")
            if got != want:
                return "paragraph %r shown as %r" % (want, got)
        if lines[k:k + 1] != [""]:
            return "no empty line after the block %r" % (b,)
        k += 1
    if lines[k:] != [""]:
        return "more text: %r" % lines[k:k + 3]
    return None


def md_flat(t):
    out, k, em = "", 0, False
    while k < len(t):
        if t[k] == "\\" and k + 1 < len(t):
            out += t[k + 1]
            k += 2
        elif t.startswith("**", k):
            out += "\x02" if em else "\x01"
            em = not em
            k += 2
        elif t[k] == "[":
            out += "\x03"
            k += 1
        elif t.startswith("](", k):
            e = find(t, ")", k)
            out += "\x04<%s>" % unescape(t[k + 2:e])
            k = e + 1
        else:
            out += t[k]
            k += 1
    return out


# ---------------------------------------------------------------- HTML
class Page(html.parser.HTMLParser):
    """reads the page back: the blocks in the form of parse(), and whether all is nested well"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.bad, self.blocks, self.text, self.title = [], None, [], None, None
        self.items, self.decl, self.meta = 0, "", {}

    def handle_decl(self, d):
        self.decl = d

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "br":
            self.text = (self.text or "") + "\n"
            return
        if tag == "meta":
            self.meta.update(a)
            return
        up = self.stack[-1] if self.stack else None
        ok = {"html": [None], "head": ["html"], "body": ["html"], "title": ["head"], "h1": ["body"], "h2": ["body"],
              "ul": ["body", "li"], "li": ["ul"], "p": ["body", "li"], "pre": ["body", "li"], "code": ["pre"],
              "a": ["p"], "strong": ["p"], "i": ["head", "body"]}
        if up not in ok.get(tag, []):
            self.bad = self.bad or "<%s> in <%s>" % (tag, up)
        self.stack.append(tag)
        if tag in ("h1", "h2", "p", "code", "title"):
            self.text = ""
        elif tag == "strong":
            self.text += "\x01"
        elif tag == "a":
            self.text += "\x03"
            self.href = a.get("href", "")
        elif tag == "li":
            self.items += 1
            self.fresh = True

    def handle_startendtag(self, tag, attrs):
        if tag not in ("br", "meta"):
            self.bad = self.bad or "<%s/>" % tag
        else:
            self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        if not self.stack or self.stack.pop() != tag:
            self.bad = self.bad or "</%s> after %r" % (tag, self.stack)
        level = self.stack.count("ul")
        if tag in ("h1", "h2"):
            if tag != ("h2" if any(b[0] == "h" for b in self.blocks) else "h1"):
                self.bad = self.bad or "%s for title %r" % (tag, self.text)
            self.blocks.append(("h", norm(self.text)))
        elif tag == "title":
            self.title = self.text
        elif tag == "p":
            self.blocks.append(("p", level, self.fresh and level > 0, norm(self.text)))
            self.fresh = False
        elif tag == "code":
            self.blocks.append(("c", level, self.text))
            self.fresh = False
        elif tag == "strong":
            self.text += "\x02"
        elif tag == "a":
            self.text += "\x04<%s>" % self.href
        elif tag == "ul":
            self.fresh = False

    fresh = False

    def handle_data(self, d):
        if self.text is not None:
            self.text += d
        if not d.strip():
            return
        if not self.stack or self.stack[-1] not in ("title", "h1", "h2", "p", "code", "a", "strong", "i"):
            self.bad = self.bad or "text %r in %r" % (d[:30], self.stack)


def href(g):
    """an extension is added to the targets without one, unless they are addresses"""
    if re.match("https?://|mail://", g):
        return g
    return g if "." in g.rsplit("/", 1)[-1] else g + ".html"


def check_html(blocks, out, title, extra):
    p = Page()
    p.feed(out)
    p.close()
    if p.bad:
        return "not well nested: %s" % p.bad
    if p.stack:
        return "not ended: %r" % p.stack
    heads = [b[1] for b in blocks if b[0] == "h"]
    if norm(p.title or "") != norm(title + (heads[0] if heads else "")):
        return "the title is %r" % p.title
    for e in extra:
        if out.count(e) != 1:
            return "the file included is there %d times" % out.count(e)
    if not blocks:
        p.blocks = [b for b in p.blocks if b[-1].strip()]
    if len(p.blocks) != len(blocks):
        return "%d blocks instead of %d" % (len(p.blocks), len(blocks))
    last = 0
    for b, g in zip(blocks, p.blocks):
        if b[0] == "h":
            w, last = ("h", norm(b[1])), 0
        elif b[0] == "c":
            w = b
            if g[0] == "c" and g[1] == b[1] and g[2].strip("\n") == b[2].strip("\n"):
                w = g
            last = max(b[1], 0)
        else:
            # a paragraph of a deeper list always begins an item
            mark = b[1] > 0 and (b[2] or b[1] > last)
            w = ("p", b[1], mark, flat([(k, t, href(x) if x is not None else x) for k, t, x in b[3]]))
            last = b[1]
        if w != g:
            return "%r shown as %r" % (w, g)
    return None


# ---------------------------------------------------------------- documents
WORDS = "the a of pBat script line variable command ; , . (see) 100% C:/dir/file.txt a_b * # ~x [opt] <tag> &amp; \"q\" 'z' -x /Y x|y é naïve 漢字 Straße 5<6 a&b -> ${".split()


def word(r, esc=True):
    w = r.choice(WORDS[:-1])
    x = r.random()
    if x < 0.05:
        w = "x" * r.choice([30, 60, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 100, 150, 230, 400])
        if r.random() < 0.3:
            w = "é" + w[2:]
    elif x < 0.3:
        w = "".join(r.choice("abcdefgh") for _ in range(r.randrange(1, 14)))
    elif x < 0.33 and esc:
        w = r.choice(["\\{", "\\}", "\\\\", "\\{a\\|b\\}", "c:\\\\dir", "$\\{x\\}", "\\{\\{t\\}\\}", "\\#", "\\@"])
    return w


def phrase(r, n, long=True):
    t = ""
    for j in range(r.randrange(1, n)):
        w = word(r)
        while not long and len(w) > 40:
            w = word(r)
        t += (r.choice([" ", " ", " ", " ", "\n", "\n\t", "  ", "\t"]) if j else "") + w
    return t


def inner(r, long):
    """the text of an emphasis or a link"""
    t = phrase(r, r.choice([2, 2, 3, 6]), long)
    return re.sub(r"(?<!\\)\|", "", t)


def paragraph(r, long=True):
    t, n = "", r.choice([1, 2, 3, 5, 9])
    for j in range(n):
        k = r.random()
        if k < 0.5:
            x = phrase(r, r.choice([3, 10, 30]), long)
        elif k < 0.75:
            x = "{%s}" % inner(r, long)
        else:
            x = "{%s|%s}" % (r.choice(["spec/regexp", "tea_syntax", "http://a.b/c_d", "https://x/~y", "x.txt", "a\\|b.c", "a\\\\b.c", "x(y).z", "a/b.c/d", "../up", "mail://a@b"]
                                      + (["http://" + "y" * r.randrange(50, 120)] if long else [])), inner(r, long))
        glue = r.choice([" ", " ", " ", "\n", ""]) if t else ""
        if x[0] == "{" and t.endswith(("$", "{")):
            glue = " "
        t += glue + x
    t = re.sub(r"^(?=[-@#\\])", "x ", t.lstrip(" \t\n"))
    t = re.sub(r"\n#", "\n #", t)
    return t or "x"


def code(r):
    t = r.choice(["", "\n"])
    for j in range(r.choice([1, 1, 2, 4])):
        x = " " * r.choice([0, 0, 0, 2, 5]) + " ".join(r.choice(["SET", "x=1", "<a>", "&", "|", "%v%", "{", "}", "{a}", "é", "*_b_*", "--", "@", "word",
                                                       "if", "/Y", "\"s\""]) for _ in range(r.choice([0, 1, 4, 8, 25])))
        if r.random() < 0.1:
            x += " " + "w" * r.choice([50, 60, 68, 69, 70, 71, 72, 73, 80, 141, 142, 143, 300])
        t += x + "\n"
    if r.random() < 0.6:
        t = t[:-1]
    # the braces have to match
    out, deep = "", 0
    for ch in t:
        if ch == "}":
            if not deep:
                ch = ")"
            else:
                deep -= 1
        elif ch == "{":
            deep += 1
        out += ch
    return out + "}" * deep


def title(r, long):
    t = phrase(r, r.choice([2, 4, 9, 20]), long)
    t = re.sub(r"(?<!\\)[{}]", "", t).replace("\n#", " #")
    t = t.strip() or "T"
    return t + "." if t.endswith("\\}") else t


def document(r, long=True):
    src, level = "", 0
    if r.random() < 0.1:
        src += "#!" + word(r, False) + "\n"
    for j in range(r.choice([1, 2, 4, 8, 15])):
        k = r.random()
        sep = r.choice(["\n\n", "\n\n\t", "\n \t\n", "\n\n\n"])
        if j == 0:
            sep = r.choice(["", "\n", "\t"])
        if r.random() < 0.08:
            sep += "\n# %s {{ ${ {\n" % word(r, False)
            sep = sep if sep.startswith("\n\n") or j == 0 else "\n" + sep
        if k < 0.2:
            src += sep + "{{" + title(r, long) + "}}"
            level = 0
        elif k < 0.35:
            src += sep + "${" + code(r) + "}"
        else:
            level = max(0, min(level + r.choice([-2, -1, 0, 0, 1]), 4)) if r.random() < 0.7 else 0
            mark = "-" * level
            if level and r.random() < 0.25:
                mark = "@" + mark
            p = paragraph(r, long)
            src += sep + (mark + r.choice([" ", " ", ""]) if mark else "") + p
    return src + r.choice(["", "\n", "\n\n"])


def hostile(r, docs):
    k = r.random()
    if k < 0.25:
        return r.randbytes(r.choice([0, 1, 10, 300, 5000]))
    if k < 0.6:
        return "".join(r.choice(["{", "{{", "}", "}}", "${", "$", "\\", "|", "-", "--", "@", "@-", "#", "\n", "\n\n", " ", "\t", "a", "word", "é", "漢", "x" * 80,
                                 "\xef\xbb\xbf", "_", "*", "{}", "{|}", "{a|}", "{|b}", "{{}}", "${}", "{ }", "\\\n"])
                       for _ in range(r.choice([1, 3, 8, 30, 200]))).encode()
    s = bytearray(docs(r).encode())
    for _ in range(r.choice([1, 3, 10])):
        if not s:
            break
        p = r.randrange(len(s))
        x = r.random()
        if x < 0.4:
            del s[p:p + r.choice([1, 1, 5, 100])]
        elif x < 0.8:
            s[p:p] = r.choice([b"{", b"}", b"{{", b"}}", b"${", b"\\", b"|", b"\xff", b"\x00", b"\xc3", b"\n", b"-", b"y" * 200])
        else:
            s[p] = r.randrange(256)
    return bytes(s)


def fn():
    c = Check("P18", "exploration", "distinct: hash of source, format and encoding; nontrivial: the document has at least one block",
              ["widths are counted in characters, as TEA does, not in terminal columns"])
    bins = {v: build.build(v) for v in ("plain", "asan")}
    real = sorted(glob.glob(os.path.join(build.REPO, "man", "*", "*.tea")) + glob.glob(os.path.join(build.REPO, "man", "*", "spec", "*.tea"))
                  + glob.glob(os.path.join(build.REPO, "*.tea")))

    def tea(v, src, fmt, enc, more=(), files=None):
        d = c.arena.case_dir(dict(files or {}, **{"in.tea": src}))
        res = c.run([os.path.join(bins[v], "cmd", "tea"), "in.tea", "out"] + enc + fmt + list(more), d, timeout=10)
        try:
            out = open(d + "/out", "rb").read(4 << 20)
        except OSError:
            out = None
        c.arena.drop(d)
        return res, out

    def one(i):
        r = c.rng(i)
        v = "asan" if i % 2 else "plain"
        if i < len(real) * len(FORMATS):
            kind, fmt = "real", FORMATS[i % len(FORMATS)]
            src = open(real[i // len(FORMATS)], "rb").read()
            try:
                src.decode()
            except UnicodeDecodeError:
                src = src.decode("latin-1").encode()
        else:
            kind = "hostile" if r.random() < 0.3 else "made"
            fmt = r.choice(FORMATS)
            src = hostile(r, document) if kind == "hostile" else document(r, fmt != "MD").encode()
        utf = kind == "real" or r.random() < 0.7
        enc = [r.choice(["/E:UTF-8", "-E:utf-8", "/eutf-8"])] if utf else ["/E:ISO-8859-1"]
        opt = [r.choice(["/O:", "-o:", "/o"]) + r.choice([fmt, fmt.lower()])]
        if fmt == "TEXT" and r.random() < 0.3:
            opt = []
        more, files, title = [], {}, ""
        if fmt == "HTML" and kind == "made" and r.random() < 0.5:
            for o, n, x in (("/M", "meta", "<!-- meta %d -->" % i), ("/H", "head", "<i>head &amp; %d</i>" % i), ("/F", "foot", "<i>foot\n\n %d</i>" % i)):
                if r.random() < 0.5:
                    more += [o, n]
                    files[n] = x
            if r.random() < 0.5:
                title = "Title :: "
                more += ["/T", title]
            if r.random() < 0.5:
                more.append("/C:" + r.choice(["HTML4", "XHTML", "xhtml"]))
        if utf and kind == "made" and r.random() < 0.05:
            src = b"\xef\xbb\xbf" + src
        if kind == "made" and r.random() < 0.1:
            src = src.replace(b"\n", b"\r\n")
        res, out = tea(v, src, opt, enc, more, files)
        return v, kind, fmt, utf, src, more, files, title, res, out

    base = len(real) * len(FORMATS)
    for i, (v, kind, fmt, utf, src, more, files, title, res, out) in c.pmap(one, range(base + c.n(6000, 120000))):
        s = src.decode("utf-8" if utf else "latin-1", "replace").replace("\r\n", "\n").lstrip("\ufeff")
        try:
            blocks = parse(s)
        except Unended:
            blocks = None
        c.saw((src, fmt, utf), nontrivial=bool(blocks), blocks=len(blocks or ()), asan=int(v == "asan"), **{kind: 1, fmt: 1})
        rep = {"source": src, "format": fmt, "utf8": utf, "options": more, "variant": v, "out": (out or b"")[:4000], **res.brief()}
        key = "%s/%d" % (kind, i)
        if res.timeout or res.crashed or res.sanitizer():
            c.violation(key, "hang" if res.timeout else res.sanitizer() or "status %d" % res.rc, rep)
            continue
        if kind == "hostile":
            c.count("refused", int(res.rc != 0))
            if (res.rc != 0) != bool(res.err):
                c.violation(key, "status %d, errors %r" % (res.rc, res.err[:80]), rep)
            continue
        if res.rc != 0 or out is None or res.err:
            c.violation(key, "status %d, %r" % (res.rc, res.err[:100]), rep)
            continue
        try:
            o = out.decode("utf-8" if utf else "latin-1")
        except UnicodeDecodeError as e:
            c.violation(key, "the output is not UTF-8: %s" % e, rep)
            continue
        if not blocks and fmt != "HTML":
            bad = "the empty document is shown as %r" % o if re.sub(r"\x1b\[\d+m", "", o).strip() else None
        elif fmt == "HTML":
            bad = check_html(blocks, o, title, list(files.values()))
        elif fmt == "MD":
            bad = check_md(blocks, o)
        else:
            bad = check_text(fmt, blocks, o)
        if i in (base, base + 3, base + 7):
            c.samples.append({"source": s[:300], "format": fmt, "out": o[:300]})
        if bad:
            c.violation(key, "%s: %s" % (fmt, bad), rep)
    c.finish(1000)


if __name__ == "__main__":
    main(fn)
