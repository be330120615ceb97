"""P11: interpreters running side by side do not disturb one another: no data race, no deadlock, no mixed results."""
import importlib.util, os, re
from vt.check import Check, main
from vt import build, run, bat

DATA = {
    "data.txt": "".join("alpha%d beta%d gamma%d\n" % (i, i * 3, i % 7) for i in range(40)),
    "nums.txt": "".join("%d,%d;%d\n" % (i, i * i, -i) for i in range(25)),
    "sub/one.txt": "one\n", "sub/two.txt": "two\n", "sub/three.dat": "three\nthree\n", "sub/in/four.txt": "four\n",
    "callee.bat": "@echo off\necho callee %1 %2\nset fromcallee=%1\nexit /b 0\n",
}


def frag(r, k):
    """A command sequence whose results depend on nothing but the shared read-only files; {k} marks private names."""
    n = r.randint(2, 9)
    w = r.choice
    v = "v%d" % r.randint(0, 9)
    return w([
        "for /l %%%%i in (1,1,%d) do @(set /a %s=%%%%i*3+1 & echo !%s!)" % (n, v, v),
        "call :float %d %d" % (n, n * n), "call :float %d %d" % (n, n * n), "call :float 1%d 2" % n,
        "set /a %s=%d*3-1 & echo !%s!" % (v, n, v),
        "set %s=abcdefghij%d& echo !%s:~2,4! !%s:c=XY! !%s:~-3!" % (v, n, v, v, v),
        "setlocal & set %s=inner& endlocal & echo [!%s!]" % (v, v),
        "call :sub %d x%d" % (n, n),
        "call callee.bat %d y" % n,
        "callee.bat %d z" % n,
        'for /f "tokens=1,2" %%%%a in (data.txt) do @echo %%%%b %%%%a',
        'for /f "tokens=1-3 delims=,;" %%%%a in (nums.txt) do @set /a %s=%%%%b-%%%%a+%%%%c & echo !%s!' % (v, v),
        "for /f %%%%a in ('echo out%d rest') do @echo got %%%%a" % n,
        "for /f \"tokens=2\" %%%%a in ('%%e%% g:%d:30:q ^| find q1') do @echo got %%%%a" % n,
        "find alpha%d data.txt" % n, "find /c beta data.txt", "find /v a data.txt", "find /e .*a%d.* data.txt" % n,
        "for %%f in (sub/*.txt) do @echo %%~nf%%~xf".replace("%", "%%").replace("%%%%", "%%"),
        "pushd sub & echo !cd:~-4! & popd",
        "cd sub & echo !cd:~-4! & type one.txt & cd ..",
        "if %d GTR 4 (echo big) else (echo small)" % n,
        "if exist sub/one.txt if not exist nothing (echo there)",
        "%%e%% o:tok%d e:err%d 2>e{k}.txt" % (n, n),
        "%%e%% g:%d:120:g | find g1" % (n * 30),
        "(echo a & echo b & echo c%d) | find c" % n,
        "(echo a%d | %%e%% c) & echo !%s!" % (n, v),
        "type data.txt", "more nums.txt", "wc data.txt", "dir /b sub",
        "copy data.txt c{k}.txt >nul{k} & find /c a c{k}.txt & del c{k}.txt",
        "md d{k}_%d & cd d{k}_%d & echo x> f & cd .. & rd /s /q d{k}_%d" % (n, n, n),
        "echo %%random%%>r{k}.txt& del r{k}.txt",
        "echo !time! !date! >t{k}.tmp& del t{k}.tmp",
        "set /p %s=<data.txt& echo !%s!" % (v, v),
        "cd nonexist%d 2>>f{k}.txt" % n, "call :nolabel 2>>f{k}.txt", "goto_x 2>>f{k}.txt", "del nofile 2>>f{k}.txt",
        "echo one two three | xargs echo X",
        "echo text%d>w{k}.tmp& ren w{k}.tmp x{k}.tmp& type x{k}.tmp& move x{k}.tmp y{k}.tmp >nul{k}& del y{k}.tmp" % n,
        "%%e%% x:%d& call echo el=%%%%errorlevel%%%%" % n,
        "for %%%%a in (1 2 3) do @for %%%%b in (x y) do @echo %%%%a%%%%b",
        "type sub/one.txt sub/two.txt", "shift & echo %1".replace("%", "%%"), "set %s=1& set %s>nul{k}" % (v, v),
        "echo !undefined! !path:~0,4!", "title worker{k} >nul{k}", "ver >nul{k}",
    ]).replace("{k}", str(k))


def make(r, nwork, nfrag):
    works = []
    for k in range(nwork):
        fs = []
        for _ in range(r.randint(max(1, nfrag // 2), nfrag)):
            f = frag(r, k)
            fs.append(f)
        works.append(fs)
    return works


SUBS = [":float", "set /a fl=%1*1.5+sqrt(%2)", "set /a in=(%1+3)*%1", "echo !fl! !in!", "goto :eof",
        ":sub", "set s=%1%2", "echo sub !s! %*", "exit /b 3"]


def work_text(k, fs):
    return [":w%d" % k] + ["(" + "\n".join("(%s)" % f if re.match(r"if |for ", f) else f for f in fs) + ") >w%d.txt 2>x%d.txt" % (k, k),
                           "goto :eof"]


def script(r, works, serial):
    out = ["@echo off", "setlocal enabledelayedexpansion"]
    ks = list(range(len(works)))
    if serial:
        out += ["call :w%d | rem" % k for k in ks]
    else:
        shape = r.random()
        calls = ["call :w%d" % k for k in ks]
        if shape < .6 or len(ks) < 4:
            out.append(" | ".join(calls) + " | rem")
        else:
            h = len(ks) // 2
            out.append("(%s) | (%s) | rem" % (" | ".join(calls[:h]), " | ".join(calls[h:])))
    out += ["echo done", "goto :eof"]
    for k, fs in enumerate(works):
        out += work_text(k, fs)
    return "\n".join(out + SUBS) + "\n"


def tree(d):
    t = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            t[os.path.relpath(os.path.join(r, x), d)] = None
        for f in fs:
            if f.startswith("nul"):
                continue
            p = os.path.join(r, f)
            with open(p, "rb") as fh:
                b = fh.read()
            # names of the two case directories
            t[os.path.relpath(p, d)] = b.replace(os.fsencode(d), b"@D@")
    t.pop("t.bat", None)
    return t


def race_keys(err):
    """One stable key per ThreadSanitizer report: its kind and the topmost frames in picobat of both accesses."""
    t = err.decode("utf-8", "backslashreplace")
    out = {}
    for rep in re.split(r"={18}\n", t):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", rep)
        if not m:
            continue
        fr = []
        for part in re.split(r"\n\n", rep):
            f = re.search(r"#\d+ ([\w.]+)[^\n]*?/src/([\w./-]+?):\d+", part)
            if f and len(fr) < 2:
                fr.append(f.group(1))
        out.setdefault("%s:%s" % (m.group(1).strip().replace(" ", "-"), "<>".join(sorted(fr))), rep[:3000])
    return out


def load_p10():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "P10.py")
    spec = importlib.util.spec_from_file_location("p10", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def body():
    ck = Check("P11", "exploration",
               "a case is one concurrent run: its workers' complete results were compared with a serial run and its race "
               "reports collected; distinct by script and variant",
               ["ThreadSanitizer sees the synchronisation of the C library calls the interpreter makes",
                "the delays explored are random ones up to some milliseconds"])
    plain, tsan = build.build("plain"), build.build("tsan")
    emit = build.helper("emit")
    jit = build.helper("jit", ("-shared", "-fPIC", "-ldl"))
    p10 = load_p10()
    env0 = run.base_env(e=emit)
    env0["TSAN_OPTIONS"] = "exitcode=0:halt_on_error=0:report_thread_leaks=0:second_deadlock_stack=1:detect_deadlocks=1:report_signal_unsafe=0"

    def verdict(res, what):
        if res.timeout:
            return ("hang:" + what, "does not end")
        if res.crashed:
            return ("signal:" + what, "ended by signal %d" % -res.rc)
        return None

    def mix(i):
        r = ck.rng("mix", i)
        works = make(r, r.choice([2, 3, 4, 5]), r.choice([3, 6, 10]))
        sr = script(r, works, True)
        conc = script(r, works, False)
        ds = ck.arena.case_dir(dict(DATA, **{"t.bat": sr}))
        res = ck.run([bat.pbat(plain), "t.bat"], ds, env=env0, timeout=60)
        ref = tree(ds)
        ck.arena.drop(ds)
        bad = []
        for k in range(len(works)):
            if ref.get("x%d.txt" % k) != b"" and ck.args.verbose:
                print("?", ref.get("x%d.txt" % k), res.err[:300])
        v = verdict(res, "serial")
        if v:
            bad.append(v + ("serial", sr, res))
        out = []
        for var, n in (("tsan", 1 if i % 2 else 2), ("jit", 3)):
            for j in range(n):
                d = ck.arena.case_dir(dict(DATA, **{"t.bat": conc}))
                env = dict(env0)
                if var == "jit":
                    env["LD_PRELOAD"] = jit
                    env["JIT"] = "%d,%d,%d" % (r.randint(1, 9999), r.choice([30, 100, 300]), r.choice([300, 1500, 4000]))
                res = ck.run([bat.pbat(tsan if var == "tsan" else plain), "t.bat"], d, env=env, timeout=90)
                got = tree(d)
                ck.arena.drop(d)
                v = verdict(res, "mix")
                if v:
                    bad.append(v + (var, conc, res))
                elif b"done" not in res.out:
                    bad.append(("lost:mix", "the script ended early", var, conc, res))
                else:
                    for f in sorted(set(ref) | set(got)):
                        if ref.get(f, 0) != got.get(f, 0):
                            bad.append(("differs:mix%d" % i, "%s holds %r instead of %r" % (f, (got.get(f) or b"")[-200:], (ref.get(f) or b"")[-200:]), var, conc, res))
                            break
                if var == "tsan":
                    for key, rep in race_keys(res.err).items():
                        bad.append((key, rep, var, conc, res))
                out.append((var, sum(len(b or b"") for b in got.values())))
        return conc, works, out, bad

    def pipes(i):
        r = ck.rng("pipes", i)
        case = p10.make(r, False)
        files = dict(case["files"], **{"t.bat": case["script"]})
        files.update({"sub/" + f: t for f, t in case["files"].items()})
        bad = []
        out = []
        for var in ("tsan", "jit"):
            d = ck.arena.case_dir(files, dirs=("sub",))
            env = dict(env0, b=d)
            if var == "jit":
                env["LD_PRELOAD"] = jit
                env["JIT"] = "%d,%d,%d" % (r.randint(1, 9999), r.choice([20, 100]), r.choice([300, 1500]))
            res = ck.run([bat.pbat(tsan if var == "tsan" else plain), "t.bat"], d, env=env, timeout=90)
            ck.arena.drop(d)
            v = verdict(res, "pipes")
            exp = [x.replace("@CWD@", d) for x in case["exp"]]
            got = [x.rstrip(" ") for x in res.out.decode("utf-8", "backslashreplace").split("\n")][:-1]
            if v:
                bad.append(v + (var, case["script"], res))
            elif got != exp:
                bad.append(("differs:pipes%d" % i, "expected %s" % exp[:30], var, case["script"], res))
            if var == "tsan":
                for key, rep in race_keys(res.err).items():
                    bad.append((key, rep, var, case["script"], res))
            out.append((var, len(res.out)))
        return case["script"], [], out, bad

    for part, fn, n in (("mix", mix, ck.n(60, 1500)), ("pipes", pipes, ck.n(60, 1500))):
        if not ck.want(part):
            continue
        for i, (s, works, out, bad) in ck.pmap(fn, range(n), workers=6):
            for var, size in out:
                ck.saw((s, var), nontrivial=size > 0, **{part + "_" + var: 1, "bytes_compared": size,
                                                         "commands": sum(map(len, works))})
            if i == 0:
                ck.samples.append({"script": s[:900]})
            for key, what, var, script_, res in bad:
                ck.violation(key, what[:600], {"script": script_, "variant": var, "report": what, **res.brief(4000)})
    ck.finish(20)


if __name__ == "__main__":
    main(body)
