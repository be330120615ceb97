"""P25: what a script repeats holds nothing more: memory, descriptors, threads, processes."""
import os, re
from vt.check import Check, main
from vt import build, run, bat

FILES = {"a.txt": "alpha\nbeta\n\ngamma 12\n" * 3, "b.txt": "one two three\nfour,five;six\n" * 4, "e.txt": "", "sub/x.txt": "x\n", "sub/deep/y.txt": "y\n",
         "c.bat": "@echo in c %1\n@set inner=%2\n", "x.bat": "@exit /b 3\n", "l.bat": "@setlocal\n@set q=1\n@goto end\n@echo no\n:end\n",
         "big.txt": "line of text %s\n" % ("x" * 60) * 80}

# statements; the ones of a list are repeatable in any order
SIMPLE = [
    "echo hello", "echo.", "echo %PATH%", "echo !i! %i%", "set v=text of some length", "set v=", "set nothere", "set", "set v", "set v=a%i%", "set v%i%=x&set v%i%=",
    "set /a v=3*(i+2)", "set /a v=1/0", "set /a v=(1", "set /a v+=1,w=v<<2", "set /a", "set /p v=ask <a.txt", "set /p v=", "set /x v=3", "set _a=3", "set /x _a=3",
    "set w=%v:a=b%", "set w=%v:~1,2%", "set w=%v:~-2%", "set w=%nope%%v:~9%", "set w=!v:t=T!", "echo %date%%time%%cd%%random%%errorlevel%%cmdcmdline%",
    "echo %~f0 %~dp0 %~nx0 %0 %1 %*", "shift", "title x", "rem a comment", ":: also", "ver", "path", "path %PATH%", "prompt $p$g", "prompt", "color", "cls", "verify", "vol", "date /t", "time /t",
    "setlocal&endlocal", "setlocal enabledelayedexpansion&set z=1&endlocal", "setlocal&set z=1&setlocal&set z=2&endlocal&endlocal", "endlocal", "setlocal disabledelayedexpansion&endlocal",
    "setlocal cmdlycorrect&endlocal", "setlocal nonsense&endlocal",
    "cd sub&cd ..", "cd nowhere", "cd", "pushd sub&popd", "popd", "pushd nowhere", "pushd sub&pushd deep&popd&popd", "pushd", "cd \"sub\"&cd ../.",
    "if 1==1 echo y", "if 1==2 (echo n) else echo y", "if exist a.txt echo y", "if not defined v echo u", "if \"%v%\" equ \"x\" (echo a) else if 3 lss 4 (echo b) else (echo c)",
    "if a==b (echo n) else (echo y&echo z)", "if /i A==a echo y", "if errorlevel 1 echo e", "if 1 blah 2 echo n", "if 1==1", "if 3.5 gtr abc echo n", "if not exist nope.* echo y",
    "for %%x in (1 2 3) do echo %%x", "for %%x in (*.txt) do echo %%~nx", "for /l %%x in (1,1,3) do set w=%%x", "for /f %%x in (b.txt) do set w=%%x",
    "for /f \"tokens=1,2* delims=,; \" %%x in (b.txt) do set w=%%x-%%y-%%z", "for /f \"usebackq\" %%x in ('a string') do set w=%%x", "for /f %%x in ('echo cmd') do set w=%%x",
    "for /f \"skip=1 eol=f\" %%x in (b.txt a.txt) do set w=%%x", "for /f %%x in (nofile) do set w=%%x", "for /f \"nonsense=3\" %%x in (b.txt) do echo n", "for /r %%x in (*.txt) do set w=%%x",
    "for /d %%x in (*) do set w=%%x", "for /d /r %%x in (*) do set w=%%x", "for %%x in (a b) do (echo %%x&if %%x==a echo is a)", "for %%x in (1 2 3) do (if %%x==2 goto b{n}\n)\n:b{n}", "for /z %%x in (a) do echo n", "for %%x (a) do echo n", "for %%x in (a b) do for %%y in (c d) do set w=%%x%%y",
    "for %%x in () do echo n", "for %%x in (a \"b c\" d,e) do @set w=%%~x",
    "goto g{n}\necho no\n:g{n}", "call :s1 a b", "call :s2", "call :s3 \"x y\"", "call c.bat one two", "call x.bat", "call l.bat", "call nofile.bat", "call :nolabel", "call set w=%%v%%", "call echo %%v%%",
    "call :s4", "call :s5", "call :s6",
    "def p1 (echo $1 $*)&p1 a b c", "def p2 (set _l=$1\necho %_l%\n)\np2 x", "def p3 &p3", "def p4 (goto :eof)\np4 q", "def p5 (exit /b 2)\np5", "def",
    "echo x >o.txt", "echo x >>o.txt&del o.txt", "echo x 2>&1", "echo x >&2", "type a.txt >nul", "type a.txt >o1.txt 2>o2.txt", "(echo a\necho b\n) >o.txt", "echo x >nodir/o.txt", "type <a.txt", "type <nofile",
    "echo x >", "find \"a\" <a.txt >o.txt 2>&1", "(type a.txt&(echo y>o2.txt)) >o.txt", "echo a >o.txt >o2.txt", "if 1==1 (echo a>o.txt) else echo b>o2.txt", "echo x >&7", "echo x 2>o.txt 1>&2",
    "echo a|find \"a\"", "echo a|type", "type a.txt|find \"b\"|find /c \"e\"", "echo a|(find \"a\"&echo z)", "(echo a&echo b)|type", "echo a|nocmd", "nocmd|type", "echo a|/bin/cat", "/bin/echo z|find \"z\"", "/bin/echo z|/bin/cat|/bin/cat",
    "type nofile|type", "set w=1|set w=2", "type big.txt|find \"nothing\"", "echo a|set /p w=", "cd sub|echo x", "echo a|", "|echo a", "echo a|(echo b>o.txt)", "for %%x in (a b) do echo %%x|find \"a\"", "setlocal|type", "call :s1|find \"s\"", "type big.txt|ver", "p1|type", "goto :eof|type", "exit|type", "exit /b 2|type", "goto nolabel|type", "call :nolabel|type", "for /f %%x in ('call :nolabel') do echo %%x",
    "/bin/true", "/bin/false", "/bin/echo x y >o.txt", "/nonexistent/prog", "nosuchcommand at all", "{here}/a.txt", "\"/bin/echo\" \"a b\"", "echo a&echo b&&echo c||echo d", "nocmd&&echo n||echo y",
    "type a.txt", "type nofile", "type a.txt b.txt", "type *.txt", "type -", "copy a.txt z.txt", "copy /y a.txt z.txt", "copy a.txt+b.txt z.txt", "copy nofile z.txt", "copy a.txt nodir/z.txt", "copy *.txt sub", "copy", "copy /q a b",
    "move z.txt zz.txt&move zz.txt z.txt", "move nofile z", "ren a.txt a2.txt&ren a2.txt a.txt", "ren nofile x", "ren *.txt *.tx2&ren *.tx2 *.txt", "del z.txt", "del /q nofile", "del z*.*", "del", "copy /y a.txt z.txt&del z.txt", "del /q /s nothing.*",
    "md newd&rd newd", "md sub", "rd nodir", "rd sub", "md p1/p2/p3&rd /s /q p1", "rd", "md", "rd /q", "dir", "dir /b", "dir /s", "dir *.txt /b", "dir nofile", "dir /a:d", "dir /o:n /b", "dir /s /b *.txt", "dir /-n", "dir /q:z", "dir /?",
    "find \"a\" a.txt", "find /i /n \"A\" a.txt b.txt", "find /v /c \"a\" a.txt", "find \"a\" nofile", "find", "find \"[a-c]+\" /p b.txt", "find /z", "more a.txt", "more <a.txt", "more nofile", "more /z", "dump a.txt", "dump /t:ui a.txt", "dump nofile", "dump /q",
    "wc a.txt", "wc b.txt a.txt /l", "type a.txt|wc", "wc nofile", "echo a b|xargs echo", "type b.txt|xargs /bin/echo", "xargs nocmd <b.txt", "xargs <b.txt", "start /b /bin/true", "start /w /bin/true", "start /bin/true", "start nofile", "start /w /b x.bat", "start", "start /w echo x", "start /b /w nocmd",
    "touch t.txt", "touch /q t.txt", "touch -t 202001010000 t.txt", "chmod +r a.txt", "chmod +z a.txt", "attrib a.txt", "mklink ln a.txt&del ln", "assoc", "ftype", "lc a.txt", "which echo", "which",
    "timeout 0", "timeout", "timeout x", "sleep 0", "choice /t:a,0 <a.txt", "choice /c:ab <b.txt", "choice /n /c:xy <nofile", "pause <a.txt", "help", "help echo", "echo /?", "if /?", "for /?", "set /?", "goto /?", "call /?",
    "mod", "mod /?", "mod nomod", "mod /l nomod", "mod /z", "loadlib", "history", "hist", "doskey", "cmdly", "exit /?", "&", "(", ")", "()", "( )", "(echo a\n)", "(((echo a)))", "\"\"", "@", "@@echo a", "^", "echo ^&^|^>", "echo \"un", "echo %", "echo !", "echo %%a",
    "%nope%", "%v%", "!v!", "echo on&echo off", "echo", "<a.txt", ">o.txt", "echo a & & echo b", "goto :eof&", "set \"q=a b\"", "set \"q", "exit /z",
]
# goto :eof at the top would end the script
SIMPLE = [s for s in SIMPLE if not s.startswith(("goto :eof", "exit /z", "(", "&")) or s in ("()", "( )", "(echo a\n)", "(((echo a)))") or s.startswith("(type") or s.startswith("(echo a")]
# what waits for the terminal, starts programs that outlive the loop, or changes what the body means
for s in ("time /t", "date /t", "start", "{here}/a.txt", "timeout", "sleep 0", "assoc"):
    SIMPLE.remove(s)

# what can be left from within, and how: by GOTO to a place in the body, or by the end of a subroutine
LEFT = ["for %%x in (1 2 3) do (\n{e}\n)", "for /l %%x in (1,1,9) do (\n{e}\n)", "for /f %%x in (b.txt a.txt) do (\n{e}\n)", "for /f \"usebackq\" %%x in ('a string') do (\n{e}\n)",
        "for /f %%x in ('echo cmd') do (\n{e}\n)", "for /f %%x in ('type big.txt') do (\n{e}\n)", "for /f %%x in ('/bin/cat big.txt') do (\n{e}\n)", "for /f \"skip=2\" %%x in ('type a.txt^|find \"a\"') do {e}",
        "for /r %%x in (*.txt) do (\n{e}\n)", "for /d %%x in (*) do (\n{e}\n)", "for %%x in (*.txt) do (\n{e}\n)", "for /d /r %%x in (*) do {e}", "(\n{e}\n) >o.txt", "(\n{e}\n) <a.txt", "(\n{e}\n) 2>&1 >o.txt",
        "type a.txt|(\n{e}\n)", "(\n{e}\n)|type", "if 1==1 (\n{e}\n) else (\necho n\n)", "for %%x in (*.txt) do for /f %%y in ('echo a b') do for /l %%z in (1,1,3) do (\n{e}\n)",
        "for /f %%x in (b.txt) do (\nfor /f %%y in (a.txt) do (\n(\n{e}\n) >o.txt\n)\n)", "setlocal\nset q=1\n(\n{e}\n) >o.txt", "pushd sub\nfor %%x in (*) do {e}", "def p6 (\n{e}\n)\nfor /f %%x in ('echo a') do p6 b",
        "for /f %%x in ('for /f %%y in (b.txt^) do {e}') do echo %%x", "for /f %%x in (b.txt) do (\nif exist a.txt (\n{e}\n)\n) >o.txt"]
SUBS = ["\n".join(":e%d" % i if not x else x.replace("{e}", "exit /b 5" if i % 2 else "goto :eof") for x in ("", s, "exit /b")) for i, s in enumerate(LEFT)]


def leaving():
    for i, s in enumerate(LEFT):
        # (directories and SETLOCALs are given back at the end of subroutines only)
        if not s.startswith(("setlocal", "pushd")):
            yield s.replace("{e}", "goto b{n}") + "\n:b{n}"
        if not s.startswith("pushd"):
            yield "call :e%d" % i


TAIL = r"""
exit
:s1
echo s %1 %~2
goto :eof
:s2
setlocal
set local=1
goto :eof
:s3
set _l=%~1
for %%x in (1 2) do (
  echo %%x
  exit /b 4
)
:s4
call :s1 x
for %%x in (a b) do (
  if %%x==a goto s4b
)
:s4b
exit /b 1
:s5
setlocal
setlocal enabledelayedexpansion
set w=!i!
exit /b
:s6
(
  echo q
  goto s6b
) >o.txt
:s6b
echo x|(goto :eof)
if 1==1 (
  goto :eof
)
"""


TAIL += "\n".join(SUBS) + "\n"
LABEL = ("blocks", "bytes", "descriptors", "threads", "processes", "pages", "stack")
LIMIT = (0.1, 12, 0.1, 0.1, 0.1, 100, 0.05)
# outside the domain when something has been changed about them: they may well make something grow
HANDS_OFF = ("exit", "setlocal", "endlocal", "pushd", "popd", "path", "set v%i%", "timeout", "pause", "start", "def", "set w=", "set v=a", "set /p", "p1", "p2", "p5")
LONG = ["echo " + "long text " * 60, "set v=" + "0123456789" * 300, "set w=%v:0=abc%", "set w=!v:1=!", "echo %v:~1,1500%", "call :s1 " + "argument " * 50, "call :s3 \"" + "q" * 2000 + "\"",
        "type " + "n" * 200, "cd " + "d/" * 300, "for %%x in (" + "elem " * 200 + ") do set w=%%x", "for /f \"tokens=1-9* delims=e \" %%a in (big.txt) do set w=%%a%%i%%j", "set /a v=" + "1+" * 300 + "1",
        "if \"" + "a" * 700 + "\"==\"" + "a" * 700 + "\" echo y", "set " + "n" * 300 + "=1&set " + "n" * 300 + "=", "rem " + "c" * 3000, "echo " + "x" * 3000 + "|type", "echo x>" + "f" * 300, "def " + "p" * 300 + " echo $*&" + "p" * 300 + " " + "a " * 100,
        "md " + "d" * 300, "copy a.txt " + "z" * 250, "goto " + "L" * 300 + "\n:" + "L" * 300, "/bin/echo " + "arg " * 300, "find \"" + "a" * 600 + "\" big.txt", "nocmd" + "x" * 600, "setlocal&set big=" + "b" * 2000 + "&endlocal"]


def script(body, kind, meter, here, points):
    k = [0]

    def num(s):
        k[0] += 1
        return s.replace("{n}", str(k[0])).replace("{here}", here)
    body = [num(s) for s in body]
    m = lambda t: "%s %s %s/m" % (meter, t, here)
    if kind in ("for", "stdin"):
        t = ["@echo off"]
        for a, b in zip((0,) + points, points):
            t += ["for /l %%%%I in (%d,1,%d) do (" % (a + 1, b), "set i=%%I"] + body + [")", m(b)]
        return "\n".join(t) + TAIL
    loop = "\n".join(body)
    if kind == "call":
        loop = "call :body"
    elif kind == "file":
        loop = "call b.bat %i%"
    t = ["@echo off", "set i=0", ":loop", loop, "cd " + here, "set /a i+=1"]
    t += ["if %%i%%==%d %s" % (p, m(p)) for p in points]
    t += ["if %%i%% lss %d goto loop" % points[-1]]
    return "\n".join(t) + ("\nexit\n:body\n" + "\n".join(body) + "\ngoto :eof" if kind == "call" else "") + TAIL


def forable(s):
    """can it be a part of a block?"""
    return "\n:" not in s and not re.match(r"\(|def|:|setlocal|endlocal|\||echo a\|$|\^|rem|set \"|if 1==1$|echo \"|echo %$|for .*\($", s) and s.count("(") == s.count(")")


def measure(c, d, cmd, env, stdin, points):
    r = c.run(cmd, d, env=env, timeout=40, stdin_path=stdin)
    rows = {}
    try:
        for ln in open(os.path.join(d, "m")):
            f = ln.split()
            rows[int(f[0])] = [int(x) for x in f[1:]]
    except (OSError, ValueError, IndexError):
        pass
    return r, [rows.get(p) for p in points]


def growth(rows, points):
    """what has grown in both halves, by how much an iteration"""
    out = {}
    if None in rows or not all(r[-1] for r in rows):
        return None
    for i, lim in enumerate(LIMIT):
        g = [(rows[k + 1][i] - rows[k][i]) / (points[k + 1] - points[k]) for k in range(len(rows) - 1)]
        if min(g) > lim:
            out[LABEL[i]] = round(min(g), 2)
    return out


def mutate(r, s):
    k = r.random()
    if not s:
        return s
    i = r.randrange(len(s))
    if k < 0.35:
        return s[:i] + s[i + 1:]
    if k < 0.6:
        return s[:i] + r.choice("()\"|&<>^%!,;= ~:/$@a1") + s[i:]
    w = s.split(" ")
    i = r.randrange(len(w))
    if k < 0.8:
        return " ".join(w[:i] + w[i + 1:])
    return " ".join(w[:i] + [r.choice(["a.txt", "\"b.txt\"", "sub", "(", ")", "/q", "/?", "nofile", "*", "x=1", "2>&1", "in", "do", "==", "not", "%%x", "%v%", "!v!", "1"])] + w[i:])


def wrap(r, s):
    if not forable(s) or "goto" in s:
        return s
    q = r.randrange(12)
    bare = "\n" not in s
    if q == 0:
        return "if 1==1 (\n%s\n)" % s
    if q == 1:
        return "if 1==2 (\necho n\n) else (\n%s\n)" % s
    if q == 2:
        return "for %%%%q in (1 2) do (\n%s\n)" % s
    if q == 3:
        return "for /l %%%%q in (1,1,2) do (\n%s\n)" % s
    if q == 4 and "exit" not in s:
        return "(\n%s\n)|type >o.txt" % s
    if q == 5:
        return "type a.txt|(\n%s\n)" % s
    if q == 6:
        return "(\n%s\n) >o.txt 2>&1" % s
    if q == 7:
        return "(\n%s\n) <b.txt" % s
    if q == 8 and bare and "exit" not in s:
        return "for /f \"delims=\" %%%%q in ('%s') do set w=%%%%q" % s
    if q == 9:
        return "call :s1&(%s)" % s if bare else s
    if q == 10 and bare:
        return "nocmd||(%s)&&echo a" % s
    return s


# what has 128 strings to spare shows what it loses only after these
def fn():
    c = Check("P25", "exploration", "distinct: hash of statements and kind of repetition; nontrivial: all measurements were taken",
              ["growth of less than a tenth of a block, of 12 bytes or of 50 bytes of stack an iteration is not seen, nor what "
               "happens only once in more iterations than are run"])
    plain = bat.pbat(build.build("plain"))
    count = build.helper("count", ("-shared", "-fPIC", "-ldl", "-lpthread"))
    meter = build.helper("meter")
    deep = c.tier == "thorough"

    def jobs():
        for k in ("goto", "call", "for", "stdin", "file"):
            for n, s in enumerate(SIMPLE + LONG):
                if k in ("for", "stdin") and not forable(s) or k in ("call", "file") and n % 3 and not deep:
                    continue
                yield "single", k, [s], (150, 240, 330) if not deep else (150, 600, 1000)
        for k in ("goto", "call", "file"):
            for s in leaving():
                yield "left", k, [s], (150, 240, 330) if not deep else (150, 600, 1000)
        r = c.rng("compose")
        for n in range(c.n(1200, 40000)):
            k = r.choice(("goto", "goto", "call", "for", "stdin", "file"))
            how = "mutated" if r.random() < 0.45 else "composed"
            body = []
            for j in range(r.choice((1, 1, 2, 3, 5))):
                s = r.choice(SIMPLE + LONG)
                if s == "exit|type":
                    continue
                if how == "mutated" and not s.startswith(HANDS_OFF) and len(s) < 300 and r.random() < 0.7:
                    s = mutate(r, s)
                s = wrap(r, s)
                if k in ("for", "stdin") and not forable(s):
                    continue
                body.append(s)
            if body:
                yield how, k, body, (150, 190, 230)

    def one(j):
        how, kind, body, points = j
        sug = None
        for t in range(3):
            d = c.arena.case_dir(dict(FILES))
            s = script(body, kind, meter, d, points)
            for n, x in (("t.bat", s), ("b.bat", "\n".join(body).replace("{here}", d).replace("{n}", "1") + TAIL), ("cnt", "\0" * 4096)):
                with open(os.path.join(d, n), "w") as fh:
                    fh.write(x)
            os.chmod(d, 0o777)
            os.chmod(os.path.join(d, "cnt"), 0o666)
            env = run.base_env(VT_COUNT=os.path.join(d, "cnt"), LD_PRELOAD=count)
            si = os.path.join(d, "t.bat") if kind == "stdin" else None
            r, rows = measure(c, d, [plain] + (["t.bat", "arg1", "arg2"] if not si else []), env, si, points)
            c.arena.drop(d)
            g = growth(rows, points)
            if g is None or not g:
                return s, r, rows, g
            # only what grows each time
            sug = g if sug is None else {k: v for k, v in sug.items() if k in g}
            if not sug:
                return s, r, rows, {}
        return s, r, rows, sug

    for (how, kind, body, points), (s, r, rows, g) in c.pmap(one, jobs()):
        c.saw((kind, body), nontrivial=g is not None, **{how: 1, "by_" + kind: 1, "not_measured": int(g is None),
                                                         "iterations": points[-1] if g is not None else 0})
        if g is not None and len(c.samples) < 4 and c.evaluations % 150 == 7:
            c.samples.append({"repeated": body, "by": kind, "blocks, bytes, fds, threads, processes, pages, stack": rows})
        if g:
            c.violation("growth/%s/%s/%s" % ("+".join(g), kind, "&".join(body)[:200]),
                        "%s grows at each iteration of %r" % (", ".join("%s by %s" % x for x in g.items()), body),
                        {"script": s, "rows": rows, **r.brief(1000)})
    c.finish(600)


if __name__ == "__main__":
    main(fn)
