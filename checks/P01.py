"""P01: hostile scripts and input never corrupt memory, crash or hang the interpreter (ASan + UBSan)."""
import os
import re
from vt import build, run, bat
from vt.check import Check, main

VARS = ["a", "b", "cd", "time", "date", "random", "errorlevel", "prompt", "path", "=ExitCode", "=ExitCodeAscii", "cmdcmdline",
        "cmdextversion", "undefined", "x y", "HOME", "pbat_path", "longv", "empty", "nl"]
FILES = {"a": "one\ntwo words\n\nlast", "b.txt": "tab\there\nb\n", "empty": "", "long.txt": "x" * 3000 + "\n" + "y z " * 600,
         "bin": bytes(range(256)) * 9, "d/f": "inner\n", "d/e/g.h.i": "deep\n", "sub.bat": "@echo sub %1 %2\n@exit /b 3\n",
         "q q/sp ace.txt": "spaces\n", "\u00e9t\u00e9": "\u00e9\u00e8\u65e5\u672c\n", "crlf": "one\r\ntwo\r\n", "uni.txt": "\u65e5\u672c\u8a9e" * 60 + "\t\n" +
         "w " * 90 + "\n"}
SWITCH = {
    "copy": ["/y", "/-y", "/r", "/a:d", "/a-r", "+"], "move": ["/y", "/-y", "/r", "/a:-d"], "del": ["/p", "/f", "/s", "/q", "/a:r-i"],
    "erase": ["/q"], "rd": ["/s", "/q"], "rmdir": ["/s"], "md": [], "mkdir": [], "ren": [], "rename": [], "dir": ["/s", "/b", "/a:d", "/a-h"],
    "type": [], "find": ["/c", "/n", "/i", "/v", "/e"], "wc": ["/l", "/c", "/m", "/w"],
    "more": ["/e", "/c", "/p", "/s", "/t:4", "/t", "/t0", "/t:-3", "/a", "/u", "+3", "+-1", "+99999999999", "/t:99999"], "cd": ["/d"], "chdir": [],
    "pushd": [], "popd": [], "def": ["/f", "/l"], "shift": ["/0", "/3", "/9", "/-1", "/99", "/x"], "color": [], "title": [], "cls": [],
    "prompt": [], "pecho": [], "break": [], "chcp": [], "ver": [], "help": [], "hlp": [], "mod": ["/l", "/q"], "locale": [], "pause": [],
    "rem": [], "exit": ["/b"], "setlocal": [], "endlocal": [], "set": ["/p", "/a", "/e", "/i"], "echo": [], "if": ["/i"], "for": ["/f", "/l", "/d", "/r"],
    "goto": [], "call": [], "xargs": [], "start": ["/b", "/wait", "/min", "/max", "/d"], "echo.": [], "echo:": [], "pecho.": [], "goto:": [],
    "call:": [], "(": [], ")": [], "@": [], ":": [], "::": [], "on": [], "endif": [],
}
VERBS = sorted(SWITCH)
CHARS = "%!^&|<>()\"'`=,;:~*?+-/\\@$#[]{}.0123456789abzAZ \t\u00e9\u65e5\x01\x1b\x7f"

# each of these is reported, and what follows it runs
FAULTY = '''
nosuchcommand
nosuchcommand a b
./nothing
cd nosuchdir
cd a
pushd nosuchdir
goto nosuch
call :nosuch
call nosuch.bat
set /a 1+
set /a (1
set /a 1)
set /a 1/0
set /a nosuch(1)
set /a 1 $ 2
if
if a
if a ==
if [ a equ
if exist
if defined
if not
if errorlevel
if a zzz b echo y
if [a or] echo y
for
for %%i
for %%i in
for %%i in (a)
for %%i in (a) dox echo
for /f "tokens=x" %%i in ("a") do echo y
for /f "tokens=1-" %%i in ("a") do echo y
for /f "nosuch=1" %%i in ("a") do echo y
for /l %%i in (a,b,c) do echo y
for i in (a) do echo y
copy
copy nosuch x
copy nosuch\\a x
move
move nosuch x
ren
ren a
ren nosuch x
ren a d/b
del
del nosuch
rd
rd nosuch
rd a
rd d
md a
md a/b
type nosuch
find
find "x" nosuch
more nosuch
more /t:x a
wc nosuch
find /z "x" a
wc /z a
shift /x
setlocal nosuch
color zz
color 123
timeout x
timeout /z 0
def
def p1
def =x
start
start /z
xargs
mod nosuch
locale nosuch
echo x <nothing
echo x >
echo x >d
echo x >nosuch/x
echo x >&9
echo x >y >z
echo x <
type <nothing
nosuch | find "x"
echo x | nosuch
)
a )
set nosuch
set /p
rem nothing <
'''.strip().split("\n")


class Gen:
    def __init__(self, r):
        self.r = r

    def junk(self, n=None):
        r = self.r
        return "".join(r.choice(CHARS) for _ in range(r.randint(0, 12) if n is None else n))

    def var(self):
        r = self.r
        v = r.choice(VARS)
        q = r.random()
        if q < .3:
            m = ""
        elif q < .6:
            m = ":~%s" % r.choice(["0", "1", "-1", "2,3", "-5,2", "0,-1", "5,-9", "99", ",", "-99,99", "1,", "x", "0,99999999999", "-0,-0", "~", ""])
        elif q < .8:
            m = ":%s=%s" % (r.choice(["a", "o", "*a", "*", "", "one", "\u00e9", " ", "zz"]), r.choice(["", "a", "aa", "%b%", "xyz" * 20, "^", "!a!"]))
        else:
            m = ":" + self.junk()
        c = r.choice("%%!")
        return c + v + m + c

    def special(self):
        r = self.r
        return r.choice(["%1", "%2", "%9", "%+", "%~1", "%~f1", "%~dpnx1", "%~z1", "%~a1", "%~t1", "%~fdpnxzat1", "%%i", "%%~i", "%%~fi", "%%~nxi",
                         "%%~zi", "%%~ti", "%%~ai", "%%j", "%%~$i", "%%~ffffffffffffffffi", "%~", "%", "%%", "%%%", "%1%2", "$1", "$*", "$9", "$+", "$0", "%%~"])

    def word(self):
        r = self.r
        q = r.random()
        if q < .25:
            return r.choice(sorted(FILES) + ["d", "nothing", ".", "..", "d/", "../x", "*", "*.txt", "?", "d/*", "*/*", "b?txt", "a*b*c*", "nul", "con"])
        if q < .4:
            return self.var()
        if q < .5:
            return self.special()
        if q < .6:
            return '"%s"' % r.choice([self.var(), "a b", "", self.junk(), "q q/sp ace.txt", "*"])
        if q < .75:
            return self.junk()
        if q < .8:
            return r.choice(["0", "1", "-1", "2147483647", "-2147483648", "4294967296", "99999999999999999999", "0x7fffffff", "077", "1.5", "1e308", "nan"])
        if q < .83:
            return r.choice("abz \u00e9%^") * r.choice([10, 79, 80, 81, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 5000])
        return r.choice(["on", "off", "a", "b", "x=y", "a=", "=", "a=1", "+", "/?", "/q", "-", ":eof", "eof", ":L", "L", "in", "do", "else", "not", "exist",
                         "defined", "cmdlycorrect", "enabledelayedexpansion", "errorlevel", "==", "equ", "geq", "[", "]", "or", "and", "tokens=1,2*", "delims=,",
                         "skip=1", "eol=;", "usebackq", "$p$g", "$x4f;", "$e[1m", "$t$d$u$w$n", "4f", ".4", "zz", "(", ")"])

    def args(self):
        return " ".join(self.word() for _ in range(self.r.choice([0, 1, 1, 2, 2, 3, 5])))

    def seta(self):
        r = self.r
        def e(d):
            q = r.random()
            if d <= 0 or q < .3:
                return r.choice(["1", "0", "a", "b", "undefined", "2147483647", "0x1f", "010", "1.5", ".5", "1e9", "pi", "e", "-", "x", "08", "0x", "1..2", "'a'", "9" * 30])
            if q < .75:
                return "%s%s%s" % (e(d - 1), r.choice(["+", "-", "*", "/", "%%", "<<", ">>", "&", "|", "^", "&&", "||", "==", "!=", "<", ">=", ",", "=", "+=", "**", "//", " ", "<<=", "=="]), e(d - 1))
            if q < .85:
                return "(%s)" % e(d - 1)
            if q < .93:
                return "%s(%s)" % (r.choice(["sin", "exp", "sqrt", "log", "abs", "step", "delta", "nosuch", "rand", "floor", "atan"]), e(d - 1))
            return r.choice("-+!~") + e(d - 1)
        t = e(r.choice([1, 2, 3, 4]))
        if r.random() < .7:
            t = '"%s"' % t
        return "set /a %s%s" % (r.choice(["", "a=", "b=", "a+=", "b*=", "a<<="]), t)

    def cmd(self, d=2):
        r = self.r
        q = r.random()
        if q < .06:
            return self.seta()
        if q < .14:
            return "set %s=%s" % (r.choice(["a", "b", "longv", "empty", "x y", "prompt", "a b", ""]), self.args())
        if q < .18:
            return "timeout %s" % r.choice(["0", "0.01", "/nobreak 0", "x", "", "/t 0", "0.0.0", "/t"])
        if q < .26 and d > 0:
            return "%s %s%s (%s)%s" % (r.choice(["if", "if /i", "if not"]), r.choice(["", "["]), " ".join(self.word() for _ in range(r.randint(1, 4))),
                                       self.cmd(d - 1), r.choice(["", " else (%s)" % self.cmd(d - 1), " else %s" % self.cmd(d - 1)]))
        if q < .37 and d > 0:
            kind = r.choice(["", "", "/d", "/r d", "/f", "/f \"tokens=%s delims=%s\"" % (r.choice(["1,2", "*", "1-3", "2*", "9-1", "0", "31", "1,,2", "-", "a", "1-99999", "1-%d%s" % (r.choice([31, 32, 90, 94, 95, 96, 97]), r.choice(["", "", ",*", ",5"])),
                                                                         ",".join("%d*" % k for k in range(1, r.choice([30, 48, 49])))]),
                                                                         r.choice([",", "", " ", ";,", "\t"])), "/f \"usebackq skip=%s\"" % r.choice(["0", "1", "-1", "x", "99"]),
                             "/f \"eol=%s\"" % r.choice(["", ";", "\"", "ab"]), "/l"])
            s = "%s,%s,%s" % (r.choice(["1", "5", "-1", "x", ""]), r.choice(["1", "2", "-7"]), r.choice(["3", "1", "7"])) if kind == "/l" else self.args()
            if kind == "/l" and "," in s:
                s = r.choice(["1,1,3", "5,-2,1", "1,1,0", "2147483646,1,2147483647", "-1,1,1"])
            kind += " "
            if kind.startswith("/f") and r.random() < .4:
                s = r.choice(["'%s'", "`%s`", '"%s"']) % r.choice([self.cmd(0).replace("'", "").replace("`", ""), self.word()])
            v = r.choice(["i", "j", "~", "%", "z", "1", ""]) if kind != "/l " else "j"
            return "for %s %%%%%s in (%s) do %s" % (kind, v, s, r.choice(["%s", "(%s)", "@%s"]) % self.cmd(d - 1))
        if q < .43 and d > 0:
            return "%s %s %s" % (self.cmd(d - 1), r.choice(["&", "|", "&&", "||", "&|", "&&&", "||&"]), self.cmd(d - 1))
        if q < .47 and d > 0:
            return "(%s)" % self.cmd(d - 1)
        if q < .52 and d > 0:
            return "def %s%s=%s" % (r.choice(["", "/f ", "/l "]), r.choice(["p1", "p2", "echo", "p 3", ""]), r.choice(["(%s)", "%s"]) % self.cmd(d - 1).replace("p1", "").replace("p2", ""))
        if q < .55:
            return "%s %s" % (r.choice(["p1", "p2"]), self.args())
        v = r.choice(VERBS)
        s = SWITCH[v]
        sw = " ".join(r.choice(s) if r.random() < .9 else "/" + self.junk(2) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))) if s else ""
        t = "%s %s %s" % (v if r.random() < .8 else v.upper(), sw, self.args())
        if r.random() < .15:
            t += r.choice([" >o", " >>o", " <a", " 2>&1", " 1>&2", " >", " <", " 2>", " >>", " <nothing", " >d", " 2>e", ">nul 2>&1", " 3>x", " >&9", " <<a", " >o >p",
                           " <%s" % self.word(), " >o%s" % self.junk(2)])
        if r.random() < .1:
            t = "@" + t
        if v == "start":
            t = "start /b /wait nosuch" if r.random() < .5 else t
        return t

    def mutate(self, t):
        r = self.r
        t = list(t)
        for _ in range(r.choice([1, 1, 2, 5])):
            if not t:
                break
            i = r.randrange(len(t))
            q = r.random()
            if q < .4:
                t[i] = r.choice(CHARS)
            elif q < .6:
                del t[i]
            elif q < .8:
                t.insert(i, r.choice(CHARS))
            elif q < .9:
                j = min(len(t), i + r.randint(1, 8))
                t[i:j] = t[i:j] * r.choice([2, 3, 40])
            else:
                del t[i:i + r.randint(1, 20)]
        return "".join(t)

    def ok(self, t):
        """Nothing that legitimately runs for ever or starts itself again."""
        # (carets are dropped: they only hide what the rest says)
        u = t.lower().replace("^", "")
        if re.search(r"%~?[a-z]*[0*]|%~?[a-z]*[$]|timeout.*[1-9]|q7x|sleep|pbat(?!_path)", u):
            return re.search(r"timeout", u) and not re.search(r"%~?[a-z]*[0*]|%~?[a-z]*[$]", u) and \
                bool(re.fullmatch(r"timeout (0\.01|0\.0\.0|x|/t|/nobreak 0|/t 0|0|)", u))
        # nothing outside of the scratch directory (searching it all takes its time)
        for m in re.finditer(r"[/\\]", u):
            if not re.match(r"[a-z0-9._*?-]", u[m.start() - 1:m.start()] if m.start() else "") and \
                    not re.match(r"\?([ )]|$)|[a-z0-9-][^*?/\\]*([ \"',;=()&|<>]|$)", u[m.end():]):
                return False
        if re.search(r"\.\.[/\\]\.\.|\.\.\S*.*\.\.|\.[%!]|[%!]\.|for.*\.\.", u):
            return False
        if re.search(r"def.*\b(%s)[ \"]*=" % "|".join(v for v in VERBS if v.isalpha()), u) or re.search(r"def.*def", u):
            return False        # commands that use themselves
        if re.search(r"(goto|call)", u):
            # only to labels below, which L is
            return not re.search(r"(call|goto)[ :,;=/.]*(?!sub|eof|:eof|l\b|nothing|a\b|b\.txt)", u) and "%" not in u and "!" not in u
        # counting loops with computed bounds, and definitions that may use themselves
        if re.search(r"/l", u) and re.search("f.*o.*r", u) and ("%%%" in u or u.count("/l") > 1 or not re.search(
                r"for\s+/l\s+%%[a-z]\s+in\s+\((1,1,3|5,-2,1|1,1,0|2147483646,1,2147483647|-1,1,1)\)\s+do", u)):
            return False
        return True

    def line(self):
        r = self.r
        for _ in range(50):
            t = self.cmd(r.choice([0, 1, 2, 2, 3]))
            if r.random() < .25:
                t = self.mutate(t)
            if self.ok(t):
                return t
        return "echo x"

    def script(self):
        r = self.r
        n = r.choice([1, 3, 6, 12, 12])
        ls = [r.choice(["@echo off", "@echo off", "@setlocal enabledelayedexpansion", "@setlocal cmdlycorrect", ""])]
        for _ in range(n):
            t = self.line()
            if r.random() < .05:
                t = t.replace(" ", r.choice(["\t", "  ", ",", ";"]))
            if r.random() < .06 and len(t) > 4:
                t = t.replace("(", "(\n").replace(")", "\n)") if r.random() < .7 else t.replace("(", "(\n")
            ls.append(t)
        ls += [":L", "@echo @end"]
        b = r.choice(["\n", "\n", "\n", "\r\n"]).join(ls).encode("utf-8") + r.choice([b"\n", b"", b"\n\n", b"\x1a", b"\n("])
        if r.random() < .1:
            i = r.randrange(len(b))
            b = b[:i] + r.choice([b"\0", b"\xff", b"\xc3", b"\r", b"\xe6\x97", b"\x80" * 5, b"\xf0\x9f\x98"]) + b[i:]
        return b


def fn():
    c = Check("P01", "exploration", "distinct: hash of the script; nontrivial: every script is",
              ["scripts that by their text run for ever or start themselves without end are not generated",
               "external programs are not found (PATH is empty), so no output of others is parsed"])
    # the reports of any kind make the process end at once
    def one(job):
        variant, b, i = job
        g = Gen(c.rng(variant, i))
        r = g.r
        text = g.script()
        stdin = b"".join(r.choice([b"y\n", b"n\n", b"a\n", b"\n", b"text\n", b"\xff\n", b"x" * 5000 + b"\n", b"a\0b\n", b"q\n", b"10 20,30\n", b"\xc3"])
                         for _ in range(r.choice([0, 1, 3, 20])))
        args = [g.word() for _ in range(r.choice([0, 0, 1, 2, 10]))]
        args = [a for a in args if "\0" not in a and "/" not in a]
        env = run.base_env(PATH="/nonexistent", a="value a", b="two words", longv=r.choice(["x", "\u00e9"]) * r.choice([10, 500, 5000]),
                           empty="", **({"x y": "1"} if r.random() < .5 else {}))
        files = dict(FILES)
        how = r.random()
        if how < .8:
            files["q7x.bat"] = text
            cmd = [bat.pbat(b), "q7x.bat"] + args
        elif how < .9:
            cmd = [bat.pbat(b)] + r.choice([["/A:q"], ["/A:qv"], ["/A:c"], ["/a"], []])
            stdin = text
        else:
            cmd = [bat.pbat(b), r.choice(["/c", "/C", "/k"])] + text.decode("utf-8", "replace").replace("\0", "").split("\n")[1:r.choice([2, 3])]
        if text.count(b"..") > 5:
            return None
        w = "n/n/n/n/n/n/n/n/"
        d = c.arena.case_dir({w + k: v for k, v in files.items()})
        res = c.run(cmd, os.path.join(d, w), env=env, stdin=stdin, timeout=6)
        c.arena.drop(d)
        return text, stdin, cmd[1:], res

    for variant, n in [("asan", c.n(4000, 60000))]:
        b = build.build(variant)
        for (_, _, i), got in c.pmap(one, [(variant, b, i) for i in range(n)]):
            if got is None:
                continue
            text, stdin, cmd, res = got
            rep = lambda: {"script": text, "args": cmd, "stdin": stdin[:2000], **res.brief(5000)}
            c.saw(text, True, sample=text[:200] if i % 400 == 7 else None)
            san = res.sanitizer()
            c.count("reached the end" if b"@end" in res.out else "ended before")
            c.count("error reports", res.err.count(b"Error") + res.out.count(b"Error"))
            if san:
                c.violation("memory:%s" % san, san, rep())
            elif res.timeout:
                c.violation("hang:%d" % i, "does not end", rep())
            elif res.crashed:
                c.violation("crash:%d:%s" % (i, res.rc), "ended by signal %s" % res.rc, rep())

    # a faulty command is reported and the lines after it run
    def two(job):
        variant, b, i = job
        r = c.rng("faulty", variant, i)
        n = r.choice([1, 5, 20])
        ls, block = [r.choice(["@echo off", "@echo off", "@echo off\n@setlocal cmdlycorrect"])], []
        bad = [r.choice(FAULTY) for _ in range(n)]
        for k, t in enumerate(bad):
            if r.random() < .3:
                t = re.sub("nosuch", lambda m: r.choice(["nosuch", "no_such", "N0such" * r.choice([1, 30, 40]), "n\u00e9ant"]), t)
            bad[k] = t
            if r.random() < .2 and not re.search(r"[()]", t):
                ls += ["(", t, "echo @%d@" % k, ")"]
            else:
                ls += [t, "echo @%d@" % k]
        text = ("\n".join(ls) + "\n").encode()
        d = c.arena.case_dir({"t.bat": text, "a": "x\n", "d/x": "y\n"})
        res = c.run([bat.pbat(b), "t.bat"], d, timeout=10)
        c.arena.drop(d)
        return bad, text, res

    for variant, n in [("asan", c.n(300, 3000)), ("plain", c.n(300, 3000))]:
        b = build.build(variant)
        for (_, _, i), (bad, text, res) in c.pmap(two, [(variant, b, i) for i in range(n)]):
            rep = lambda: {"script": text, **res.brief(5000)}
            c.saw(text, True)
            c.count("faulty lines", len(bad))
            got = re.findall(rb"@(\d+)@", res.out)
            san = res.sanitizer()
            if san:
                c.violation("memory:%s" % san, san, rep())
            elif res.timeout or res.crashed:
                c.violation("fault-end:%s" % bad[-1], "does not end well: %s" % ("hang" if res.timeout else res.rc), rep())
            elif got != [b"%d" % k for k in range(len(bad))]:
                k = next((k for k in range(len(bad)) if k >= len(got) or got[k] != b"%d" % k), 0)
                c.violation("fault-stops:%s" % bad[k][:60], "after %r the next line does not run" % bad[k], rep())
            elif res.err.count(b"Error") < len(bad):
                c.violation("fault-silent:%s" % bad[0][:60], "%d faulty lines, %d errors reported" % (len(bad), res.err.count(b"Error")), rep())
    c.finish(2000)


main(fn)
