"""Runs programs under test in throw-away directories, as an unprivileged user."""
import os, resource, shutil, signal, subprocess, tempfile, threading, itertools

UID = 65534
_can_drop = None


def can_drop():
    """Can children be given another user? (Not if we do not run as root.)"""
    global _can_drop
    if _can_drop is None:
        try:
            _can_drop = os.geteuid() == 0 and subprocess.run(["/bin/true"], user=UID, group=UID,
                                                             extra_groups=[]).returncode == 0
        except Exception:
            _can_drop = False
    return _can_drop


class Result:
    __slots__ = ("rc", "out", "err", "timeout", "cwd")

    def __init__(self, rc, out, err, timeout, cwd=None):
        self.rc, self.out, self.err, self.timeout, self.cwd = rc, out, err, timeout, cwd

    @property
    def crashed(self):
        return self.rc is not None and (self.rc < 0 and self.rc != -signal.SIGKILL)

    def sanitizer(self):
        return san_key(self.err)

    def brief(self, n=1500):
        return {"rc": self.rc, "timeout": self.timeout,
                "stdout": self.out[:n].decode("utf-8", "backslashreplace"),
                "stderr": self.err[:n].decode("utf-8", "backslashreplace")}


def san_key(err):
    """A stable key for the first sanitizer report in a stderr text, or None."""
    import re
    t = err.decode("utf-8", "replace") if isinstance(err, bytes) else err
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer): ?([^\n]*)|"
                  r"WARNING: (ThreadSanitizer): ([^\n(]*)|([^\s:]+):(\d+):\d+: runtime error: ([^\n]*)", t)
    if not m:
        return None
    if m.group(7):
        txt = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(7))
        return "ubsan:%s:%s" % (os.path.basename(m.group(5)), txt.strip())
    tool = m.group(1) or m.group(3)
    kind = re.split(r"[ :(]", ((m.group(2) or m.group(4)) or "").strip())[0] or "report"
    frames = []
    for f in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?([A-Za-z_][\w:~]*)[^\n]*?/src/([\w./-]+?):\d+", t[m.start():]):
        frames.append(f.group(1))
        if len(frames) == 2:
            break
    return "%s:%s:%s" % (tool, kind, "<".join(frames))


class Arena:
    """A scratch directory; cases get numbered sub-directories of it."""

    def __init__(self, tag="run"):
        self.root = tempfile.mkdtemp(prefix="vt-%s-" % tag, dir=os.environ.get("VT_TMP", "/tmp"))
        os.chmod(self.root, 0o755)
        self._n = itertools.count()
        self._lock = threading.Lock()
        self._made = {}

    def next_dir(self):
        """The name of a case directory, to be made by case_dir."""
        return os.path.join(self.root, "c%d" % next(self._n))

    def case_dir(self, files=None, dirs=(), post=None, d=None):
        """post(d): what else is to be done to a new (or renewed) directory"""
        d = d or self.next_dir()
        self._made[d] = (files, dirs, post)
        self._fill(d, files, dirs, post)
        return d

    def refill(self, d):
        """Bring a case directory back to what it was made as."""
        while d not in self._made and len(d) > len(self.root):
            d = os.path.dirname(d)
        if d in self._made:
            self._wipe(d)
            self._fill(d, *self._made[d])

    def _fill(self, d, files, dirs, post=None):
        os.mkdir(d)
        os.chmod(d, 0o755)
        for s in dirs:
            os.makedirs(os.path.join(d, s), exist_ok=True)
        for name, data in (files or {}).items():
            p = os.path.join(d, name) if not isinstance(name, bytes) else os.path.join(os.fsencode(d), name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(data.encode() if isinstance(data, str) else data)
        if can_drop():
            for r, ds, fs in os.walk(os.fsencode(d)):
                os.chown(r, UID, UID)
                for f in fs:
                    os.lchown(os.path.join(r, f), UID, UID)
        if post:
            post(d)

    def drop(self, d):
        self._made.pop(d, None)
        self._wipe(d)

    def _wipe(self, d):
        if d.startswith(self.root + "/"):
            for r, ds, fs in os.walk(d):
                for x in ds:
                    p = os.path.join(r, x)
                    if not os.path.islink(p):
                        try:
                            os.chmod(p, 0o755)
                        except OSError:
                            pass
            shutil.rmtree(d, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    __enter__ = lambda self: self

    def __exit__(self, *a):
        self.close()


def base_env(**kw):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "TERM": "dumb", "HOME": "/nonexistent",
         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1"
                         ":detect_stack_use_after_return=1:strict_string_checks=0",
         "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0",
         "TSAN_OPTIONS": "exitcode=98:halt_on_error=0:report_thread_leaks=0:second_deadlock_stack=1"}
    e.update(kw)
    return e


def run(cmd, cwd, stdin=b"", env=None, timeout=20, drop=True, stdin_path=None, limit_out=8 << 20, pass_fds=(),
        out_path=None):
    """Run to completion. stdout and stderr go to files (a runaway writer meets RLIMIT_FSIZE)."""
    kw = {}
    if drop and can_drop():
        kw = dict(user=UID, group=UID, extra_groups=[])
    fo = open(out_path, "wb+") if out_path else tempfile.TemporaryFile()
    fe = tempfile.TemporaryFile()
    if stdin_path is not None:
        fi = open(stdin_path, "rb")
    elif stdin:
        fi = tempfile.TemporaryFile()
        fi.write(stdin)
        fi.seek(0)
    else:
        fi = open("/dev/null", "rb")
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env or base_env(), stdin=fi, stdout=fo, stderr=fe,
                             start_new_session=True, pass_fds=pass_fds, **kw)
        to = False
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
            rc = None
            if os.environ.get("VT_HANG"):
                subprocess.run([os.environ["VT_HANG"], str(p.pid), str(cmd), cwd])
        # whatever it left behind ends now
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        fo.seek(0)
        fe.seek(0)
        return Result(rc, fo.read(limit_out), fe.read(limit_out), to, cwd)
    finally:
        fo.close()
        fe.close()
        fi.close()


def sparse(path, size):
    """make a file of that size, whatever limits() says; False if the file system cannot"""
    return subprocess.run(["bash", "-c", 'ulimit -S -f $(ulimit -H -f) && exec truncate -s "$1" "$2"', "bash", str(size), path],
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    s, h = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(1024, h) if h > 0 else 1024, h))
