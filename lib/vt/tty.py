"""A terminal for the interpreter: a pseudo-terminal and what it shows."""
import codecs, fcntl, os, select, struct, subprocess, termios, time, unicodedata
from vt import run


def width(ch):
    if unicodedata.combining(ch):
        return 0
    return 2 if unicodedata.east_asian_width(ch) in "WF" else 1


class Screen:
    """What a terminal of endless height shows (a small part of a VT100)."""

    def __init__(self, cols):
        self.cols, self.rows, self.x, self.y, self.wrap = cols, [{}], 0, 0, False
        self.dec = codecs.getincrementaldecoder("utf-8")("replace")
        self.esc = None          # what follows an ESC
        self.asked = 0           # questions for the position of the cursor
        self.strange = []

    def down(self, n=1):
        self.y += n
        while len(self.rows) <= self.y:
            self.rows.append({})

    def feed(self, data):
        """returns what is to be answered"""
        ans = b""
        for ch in self.dec.decode(data):
            ans += self._one(ch)
        return ans

    def _one(self, ch):
        if self.esc is not None:
            self.esc += ch
            e = self.esc
            if e[0] == "]":
                if ch == "\a":
                    self.esc = None
            elif e[0] == "[":
                if len(e) > 1 and "@" <= ch <= "~":
                    self.esc = None
                    return self._csi(e[1:-1], ch)
            else:
                self.strange.append(e)
                self.esc = None
            return b""
        if ch == "\x1b":
            self.esc = ""
        elif ch == "\r":
            self.x, self.wrap = 0, False
        elif ch == "\n":
            self.down()
            self.wrap = False
        elif ch == "\b":
            self.x, self.wrap = max(0, self.x - 1), False
        elif ch == "\t":
            self.x = min(self.cols - 1, (self.x // 8 + 1) * 8)
        elif ch < " " or ch == "\x7f":
            if ch != "\a":
                self.strange.append(ch)
        else:
            w = width(ch)
            if w == 0:
                x = self.x if self.wrap else self.x - 1
                while x > 0 and self.rows[self.y].get(x) == "":
                    x -= 1
                self.rows[self.y][x] = self.rows[self.y].get(x, " ") + ch
                return b""
            if self.wrap or self.x + w > self.cols:
                self.x = 0
                self.down()
                self.wrap = False
            r = self.rows[self.y]
            r[self.x] = ch
            if w == 2:
                r[self.x + 1] = ""
            self.x += w
            if self.x >= self.cols:
                self.x, self.wrap = self.cols - 1, True
        return b""

    def _csi(self, arg, f):
        n = int(arg) if arg.isdigit() else 1
        self.wrap = self.wrap if f in "nm" else False
        if f == "C":
            self.x = min(self.cols - 1, self.x + n)
        elif f == "D":
            self.x = max(0, self.x - n)
        elif f == "A":
            self.y = max(0, self.y - n)
        elif f == "B":
            self.down(n)
        elif f == "K":
            r = self.rows[self.y]
            for x in [x for x in r if x >= self.x]:
                del r[x]
        elif f == "H":
            self.x = self.y = 0
        elif f == "J":
            self.rows = [{}]
            self.down(0)
            while len(self.rows) <= self.y:
                self.rows.append({})
        elif f == "n":
            self.asked += 1
            return b"\x1b[%d;%dR" % (self.y + 1, self.x + 1)
        elif f != "m":
            self.strange.append("[" + arg + f)
        return b""

    def text(self, y, x=0):
        r = self.rows[y] if y < len(self.rows) else {}
        if not r:
            return ""
        return "".join(r.get(i, " ") for i in range(x, max(r) + 1)).rstrip(" ")


class Session:
    def __init__(self, cmd, cwd, cols, env=None):
        self.m, s = os.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 60, cols, 0, 0))
        self.slave = s
        self.before = termios.tcgetattr(s)
        self.state = subprocess.run(["/bin/stty", "-g"], stdin=s, capture_output=True).stdout.strip()
        kw = dict(user=run.UID, group=run.UID, extra_groups=[]) if run.can_drop() else {}
        self.p = subprocess.Popen(cmd, stdin=s, stdout=s, stderr=s, cwd=cwd, env=run.base_env(TERM="xterm", **(env or {})),
                                  start_new_session=True, **kw)
        os.set_blocking(self.m, False)
        self.scr = Screen(cols)
        self.raw = bytearray()
        self.todo = b""
        self.light = False       # only answer

    def pump(self, t):
        """read (and write) for at most t seconds; False if nothing came"""
        r, w, _ = select.select([self.m], [self.m] if self.todo else [], [], t)
        if w:
            try:
                n = os.write(self.m, self.todo[:512])
                self.todo = self.todo[n:]
            except BlockingIOError:
                pass
        if not r:
            return bool(w)
        try:
            d = os.read(self.m, 65536)
        except (BlockingIOError, OSError):
            return False
        self.raw += d
        if self.light:
            n = self.raw.count(b"\x1b[6n", max(0, len(self.raw) - len(d) - 3))
            self.scr.asked += n
            self.todo += b"\x1b[1;1R" * n
        else:
            self.todo += self.scr.feed(d)
        return True

    def send(self, data, apart=None):
        """apart: where the bytes are not sent at once"""
        for i in sorted(apart or []):
            self.send(data[:i])
            self.pump(0.003)
            return self.send(data[i:], [x - i for x in apart if x > i])
        self.todo += data
        while self.todo:
            if not self.pump(1.0) and self.p.poll() is not None:
                return

    def until(self, cond, limit=8.0):
        end = time.monotonic() + limit
        while not cond():
            left = end - time.monotonic()
            if left <= 0:
                return False
            if not self.pump(min(left, 0.2)) and self.p.poll() is not None:
                # whatever is left
                while self.pump(0.05):
                    pass
                return cond()
        return True

    def close(self):
        try:
            os.killpg(self.p.pid, 9)
        except ProcessLookupError:
            pass
        self.p.wait()
        os.close(self.m)
        os.close(self.slave)


def layout(cols, x, text, pos):
    """rows and cursor of a text (a list of characters with their marks) that begins in column x of row 0"""
    rows, y, cur = {}, 0, None
    for i, g in enumerate(text):
        w = width(g[0])
        if x + w > cols:
            x, y = 0, y + 1
        if i == pos:
            cur = (x, y)
        rows.setdefault(y, {})[x] = g
        if w == 2:
            rows[y][x + 1] = ""
        x += w
    if x >= cols:
        x, y = 0, y + 1
    return rows, cur or (x, y)


def shows(scr, y0, x0, text, pos):
    rows, cur = layout(scr.cols, x0, text, pos)
    if (scr.x, scr.y - y0) != cur or scr.wrap:
        return False
    for y in range(y0, len(scr.rows)):
        want = {k: v for k, v in rows.get(y - y0, {}).items() if v != " "}
        have = {k: v for k, v in scr.rows[y].items() if v != " " and (y > y0 or k >= x0)}
        if want != have:
            return False
    return True
