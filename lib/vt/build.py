"""Builds /repo's current working tree, out of tree, in several instrumented variants.

Nothing is written below /repo: the files (tracked and untracked, not ignored) are copied to
a cache directory named after their content, and built there with picobat's own makefiles.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get("VT_REPO", "/repo")
CACHE = os.environ.get("VT_CACHE", "/tmp/vtcache")
JOBS = str(os.cpu_count() or 4)

SAN_W = "-w"
VARIANTS = {
    # name: (CC, CFLAGS, LDFLAGS)
    "plain": ("gcc", "-O1 -g -w", ""),
    "asan": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -w",
             "-fsanitize=address,undefined"),
    "tsan": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=thread -w", "-fsanitize=thread"),
}
FORKWRAP = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "src", "forkwrap.c")
SKIP_DIRS = ("_build/", "tests/", "man/fr_FR/")


class BuildError(Exception):
    pass


def source_files():
    out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-c", "-o", "--exclude-standard"],
                         capture_output=True, check=True).stdout
    fs = sorted(set(f for f in out.decode("utf-8", "surrogateescape").split("\0") if f))
    return [f for f in fs if not f.startswith(SKIP_DIRS) and os.path.isfile(os.path.join(REPO, f))]


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        p = os.path.join(REPO, f)
        h.update(f.encode("utf-8", "surrogateescape") + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    # the build recipe is part of the key too
    h.update(repr(VARIANTS).encode())
    with open(__file__, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def _run(cmd, cwd, env, log):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with open(log, "ab") as fh:
        fh.write(b"$ " + " ".join(cmd).encode() + b"\n" + r.stdout)
    if r.returncode:
        raise BuildError("%s failed in %s:\n%s" % (" ".join(cmd), cwd, r.stdout.decode("utf-8", "replace")[-3000:]))


def build(variant="plain", auto=False, options=()):
    """Return a directory holding pbat (and cmd/, modules/ ...) built with the variant.

    options: make targets run after `make config` (e.g. ("use-cmdlycorrect",)).
    """
    files = source_files()
    key = tree_hash(files)
    os.makedirs(CACHE, exist_ok=True)
    os.chmod(CACHE, 0o755)
    name = variant + "".join("+" + o for o in options)
    root = os.path.join(CACHE, key)
    os.makedirs(root, exist_ok=True)
    os.chmod(root, 0o755)
    dst = os.path.join(root, name)
    with open(os.path.join(CACHE, "lock-" + key + "-" + name), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dst, "ok")):
            return os.path.join(dst, "bin")
        _prune(key)
        if os.path.exists(dst):
            shutil.rmtree(dst)
        src = os.path.join(dst, "src")
        for f in files:
            t = os.path.join(src, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy2(os.path.join(REPO, f), t, follow_symlinks=True)
        cc, cfl, ldf = VARIANTS[variant]
        env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "LDFLAGS", "MAKEFLAGS", "CC")}
        env.update(LC_ALL="C", CC=cc)
        log = os.path.join(dst, "build.log")
        # LeakSanitizer must not make a generator run during the build fail
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        env["UBSAN_OPTIONS"] = "halt_on_error=0"
        _run(["make", "CC=" + cc, "config"], src, env, log)
        for o in options:
            _run(["make", o], src, env, log)
        if ldf:
            o = os.path.join(dst, "forkwrap.o")
            _run(["gcc", "-O1", "-c", "-o", o, FORKWRAP], src, env, log)
            ldf += " -Wl,--wrap=setvbuf " + o
        env["CFLAGS"] = cfl
        env["LDFLAGS"] = ldf
        for d in ("microgettext", "libpbat", "libfasteval", "pbat", "pbatize", "dump", "tea", "scripts"):
            j = "-j1" if d in ("libfasteval", "dump") else "-j" + JOBS
            _run(["make", j, "-C", d], src, env, log)
        b = os.path.join(dst, "bin")
        os.makedirs(os.path.join(b, "cmd"))
        shutil.copy2(os.path.join(src, "pbat/pbat"), b)
        for t in ("dump/dump", "tea/tea", "pbatize/pbatize", "scripts/hlp.bat"):
            shutil.copy2(os.path.join(src, t), os.path.join(b, "cmd"))
        # a second layout, with the start-up script, beside the first
        a = os.path.join(dst, "bin-auto")
        shutil.copytree(b, a)
        shutil.copy2(os.path.join(src, "scripts/pBat_Auto.bat"), a)
        open(os.path.join(dst, "ok"), "w").close()
    return os.path.join(dst, "bin")


def helper(name, flags=()):
    """Compile lib/src/<name>.c (or .so) into the cache and return its path."""
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "src", name + ".c")
    with open(src, "rb") as fh:
        key = hashlib.sha256(fh.read() + repr(flags).encode()).hexdigest()[:16]
    d = os.path.join(CACHE, "helpers")
    os.makedirs(d, exist_ok=True)
    os.chmod(CACHE, 0o755)
    os.chmod(d, 0o755)
    out = os.path.join(d, name + "-" + key)
    if not os.path.exists(out):
        tmp = "%s.%d" % (out, os.getpid())
        _run(["gcc", "-O1", "-w", "-o", tmp, src] + list(flags), d, dict(os.environ), os.path.join(d, "log"))
        os.chmod(tmp, 0o755)
        os.rename(tmp, out)
    return out


def _prune(keep):
    try:
        ds = [d for d in os.listdir(CACHE) if d not in (keep, 'helpers') and os.path.isdir(os.path.join(CACHE, d))]
        ds.sort(key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in ds[:-4]:
            if time.time() - os.path.getmtime(os.path.join(CACHE, d)) > 1800:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    except OSError:
        pass


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(build(v), "%.1f s" % (time.time() - t))
