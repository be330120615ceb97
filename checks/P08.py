"""P08: SET /A agrees with an independent evaluator on every generated expression."""
import math, os, sys
from vt.check import Check, main
from vt import build, run, bat

INT_MAX = 2**31 - 1
LIM = INT_MAX          # intermediate integers stay within 32 bits: beyond, the manual leaves results open
FUNCS = {
    "exp": math.exp, "log": math.log, "log10": math.log10, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos,
    "tan": math.tan, "cot": lambda x: 1 / math.tan(x), "sec": lambda x: 1 / math.cos(x),
    "csc": lambda x: 1 / math.sin(x), "asin": math.asin, "acos": math.acos, "atan": math.atan,
    "acot": lambda x: math.atan(1 / x), "asec": lambda x: math.acos(1 / x), "acsc": lambda x: math.asin(1 / x),
    "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "coth": lambda x: 1 / math.tanh(x),
    "sech": lambda x: 1 / math.cosh(x), "csch": lambda x: 1 / math.sinh(x), "asinh": math.asinh,
    "acosh": math.acosh, "atanh": math.atanh, "acoth": lambda x: math.atanh(1 / x),
    "asech": lambda x: math.acosh(1 / x), "acsch": lambda x: math.asinh(1 / x), "abs": abs,
    "step": lambda x: 0.0 if x < 0 else 1.0, "delta": lambda x: math.inf if x == 0 else 0.0,
    "nandelta": lambda x: math.nan if x == 0 else 0.0,
}
CONSTS = {"e": math.e, "log2e": math.log2(math.e), "log10e": math.log10(math.e), "ln2": math.log(2),
          "ln10": math.log(10), "pi": math.pi, "pi_2": math.pi / 2, "pi_4": math.pi / 4, "1_pi": 1 / math.pi,
          "2_pi": 2 / math.pi, "2_sqrtpi": 2 / math.sqrt(math.pi), "sqrt2": math.sqrt(2), "sqrt1_2": math.sqrt(0.5)}
# manual order, tightest first
LEVELS = [["*", "/", "%"], ["+", "-"], ["<<", ">>"], ["&"], ["^"], ["|"], ["&&"], ["||"]]
PREC = {op: 10 - i for i, l in enumerate(LEVELS) for op in l}


class Skip(Exception):
    """The expression leaves the domain the manual defines."""


def chk(v):
    if isinstance(v, int) and not -LIM <= v <= LIM:
        raise Skip
    if isinstance(v, float) and (abs(v) > 1e200 or (v and abs(v) < 1e-200)) and math.isfinite(v):
        raise Skip
    return v


def is_float(node):
    k = node[0]
    if k in ("flt", "const", "fn"):
        return True
    if k == "bin":
        return is_float(node[2]) or is_float(node[3])
    if k in ("un", "par"):
        return is_float(node[-1])
    if k == "asg":
        return is_float(node[2])
    return False


def trunc32(x):
    if isinstance(x, float):
        if not math.isfinite(x) or abs(x) >= LIM:
            raise Skip
        return int(x)
    return x


def ev(node, env, fm):
    """fm: the whole expression is in floating-point mode."""
    k = node[0]
    if k == "num":
        return float(node[1]) if fm else node[1]
    if k in ("flt", "const"):
        return node[1]
    if k == "var":
        v = env.get(node[1].upper(), 0)
        if isinstance(v, float) and not fm:
            return trunc32(v)
        return float(v) if fm else v
    if k == "par":
        return ev(node[1], env, fm)
    if k == "fn":
        a = ev(node[2], env, True)
        if not math.isfinite(a):
            raise Skip
        try:
            r = float(FUNCS[node[1]](a))
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Skip
        # picobat computes these from logarithms: only where that formula is well conditioned
        if node[1] in ("acoth", "acsch", "asech") and not 0.02 < abs(r) < 20:
            raise Skip
        # near a pole a difference in the last place of a library function is amplified
        if abs(r) > 1e6 and node[1] not in ("abs", "exp", "delta", "sinh", "cosh"):
            raise Skip
        return chk(r)
    if k == "un":
        v = ev(node[2], env, fm)
        if node[1] == "-":
            return chk(-v)
        t = trunc32(v)
        r = int(not t) if node[1] == "!" else ~t
        return float(r) if fm else chk(r)
    if k == "asg":
        if fm and not is_float(node[2]):
            # which mode stores the value is not specified: both have to agree
            if ev(node[2], dict(env), False) != ev(node[2], dict(env), True):
                raise Skip
        v = ev(node[2], env, fm)
        if isinstance(v, float):
            if not math.isfinite(v):
                raise Skip
            v = chk(float(v))
        env[node[1].upper()] = canon(v)
        return v
    if k == "bin":
        op = node[1]
        a = ev(node[2], env, fm)
        b = ev(node[3], env, fm)
        if op in ("/", "%") and not fm and b == 0:
            # no integer result: the operation is performed on doubles, which have to be the same numbers
            e = dict(env)
            if repr(ev(node[2], e, True)) != repr(float(a)) or repr(ev(node[3], e, True)) != repr(float(b)):
                raise Skip
        return chk(binop(op, a, b, fm))
    raise AssertionError(k)


def canon(v):
    """What a later read of the variable sees."""
    if isinstance(v, float) and v == int(v) and abs(v) <= LIM and (v or math.copysign(1, v) > 0):
        return int(v)
    return v


def binop(op, a, b, fm):
    if not fm and (isinstance(a, float) or isinstance(b, float)):
        raise Skip      # inf or nan from a division by zero goes on through an integer expression
    if op in ("+", "-", "*"):
        return {"+": a + b, "-": a - b, "*": a * b}[op]
    if op in ("/", "%"):
        if fm:
            a, b = float(a), float(b)
        if not fm and b != 0:
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return q if op == "/" else a - q * b
        if not math.isfinite(a) or not math.isfinite(b):
            raise Skip
        if op == "%":
            return math.nan if b == 0 else math.fmod(a, b)
        if b == 0:
            return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b)
        return a / b
    a, b = trunc32(a), trunc32(b)
    if op in ("<<", ">>"):
        if not 0 <= b <= 30 or (op == "<<" and a < 0):
            raise Skip
        r = a << b if op == "<<" else a >> b
    elif op == "&":
        r = a & b
    elif op == "|":
        r = a | b
    elif op == "^":
        r = a ^ b
    elif op == "&&":
        r = int(bool(a) and bool(b))
    else:
        r = int(bool(a) or bool(b))
    chk(r)
    return float(r) if fm else r


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.names = ["a", "B", "x1", "val", "Long_Name", "pie", "sinx", "e2", "exp_", "k.9", "_u", "z", "logs"]

    def leaf(self, fl):
        r = self.r
        c = r.random()
        if c < 0.35:
            return ("var", r.choice(self.names))
        if fl and c < 0.55:
            return ("flt",) + self.flt()
        if fl and c < 0.62:
            n = r.choice(list(CONSTS))
            return ("const", CONSTS[n], n)
        v = r.choice([0, 1, 2, 3, 5, 7, 10, 16, 255, 1000, 32767, 65536, 99999, INT_MAX, r.randrange(2**31),
                      r.randrange(100), r.randrange(10000)])
        f = r.choice(["%d", "%d", "%d", "0x%x", "0x%X", "0%o"])
        return ("num", v, f % v if v or f != "0%o" else "0")

    def flt(self):
        r = self.r
        c = r.randrange(5)
        if c == 0:
            t = "%d." % r.randrange(100)
        elif c == 1:
            t = ".%d" % r.randrange(1000)
        elif c == 2:
            t = "%d.%dE%s%d" % (r.randrange(10), r.randrange(100), r.choice(["", "+", "-"]), r.randrange(12))
        elif c == 3:
            t = "%d.%de-%d" % (r.randrange(10), r.randrange(100), r.randrange(12))
        else:
            t = "%d.%02d" % (r.randrange(1000), r.randrange(100))
        return (float(t), t)

    def expr(self, d, fl):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.leaf(fl)
        c = r.random()
        if c < 0.12:
            return ("un", r.choice(["-", "-", "!", "~"]), self.expr(d - 1, fl))
        if c < 0.19 and fl:
            # the argument is in floating-point mode of its own: keep it so
            arg = ("bin", "+", self.expr(d - 2, False if r.random() < .5 else fl), ("flt",) + self.flt())
            return ("fn", r.choice(list(FUNCS)), arg)
        if c < 0.25:
            return ("par", ("asg", r.choice(self.names), self.expr(d - 2, fl)))
        op = r.choice(r.choice(LEVELS))
        b = self.expr(d - 1, fl)
        if op in ("<<", ">>") and r.random() < 0.9:
            b = ("num", r.randrange(16), None)
            b = ("num", b[1], str(b[1]))
        return ("bin", op, self.expr(d - 1, fl), b)

    def text(self, node, ctx=0, right=False):
        """Render with only the parentheses precedence requires (plus a few spare ones)."""
        r = self.r
        k = node[0]
        if k == "num":
            return node[2]
        if k == "flt":
            return node[2]
        if k == "const":
            return node[2]
        if k == "var":
            n = node[1]
            return r.choice([n, n, n.upper(), n.lower()])
        if k == "fn":
            return "%s(%s)" % (node[1], self.text(node[2]))
        if k == "par":
            return "(" + self.text(node[1]) + ")"
        if k == "asg":
            # '=' binds tighter than any binary operator
            return "%s=%s" % (node[1], self.text(node[2], 20))
        if k == "un":
            s = node[1] + self.text(node[2], 30)
            return s
        p = PREC[node[1]]
        sp = r.choice(["", "", " "])
        s = self.text(node[2], p) + sp + node[1] + sp + self.text(node[3], p, True)
        if p < ctx or (p == ctx and right) or r.random() < 0.05:
            return "(" + s + ")"
        return s


def esc(t, q):
    """The text as written in a script: % doubles; ^ and ! need an escape, even in quotes; & | < > do outside."""
    o = []
    for ch in t:
        if ch == "%":
            o.append("%%")
        elif ch in "^!":
            o.append("^" + ch)
        elif not q and ch in "&|<>()":
            o.append("^" + ch)
        else:
            o.append(ch)
    return "".join(o)


def fix_unary_ctx(node):
    """Unary operators take a bare operand only if it is no binary expression: rendered by ctx=30."""
    return node


def same(got, want):
    if isinstance(want, int):
        return got == str(want)
    try:
        g = float(got)
    except ValueError:
        return False
    if math.isnan(want):
        return math.isnan(g)
    if math.isinf(want) or math.isinf(g):
        return g == want
    return g == want or abs(g - want) <= 2e-11 * max(abs(g), abs(want))


def conditioned(node, env, fm, want):
    """Is the result robust to last-digit noise (stored variables have 14 or 16 digits; libm differs)?"""
    if not fm or not isinstance(want, float) or not math.isfinite(want):
        return True
    def bump(n, s):
        if n[0] in ("flt", "const"):
            return (n[0], n[1] * (1 + s * 3e-14)) + n[2:]
        if n[0] == "fn":
            return ("bin", "*", (n[0], n[1], bump(n[2], s)), ("flt", 1 + s * 3e-14))
        return tuple(bump(x, s) if isinstance(x, tuple) else x for x in n)
    for s in (1, -1):
        e = {k: (v * (1 + s * 3e-14) if isinstance(v, float) else v) for k, v in env.items()}
        try:
            w = ev(bump(node, s), e, fm)
        except (Skip, OverflowError, ValueError):
            return False
        if not math.isfinite(w) or abs(w - want) > 5e-12 * max(abs(w), abs(want)):
            return False
    return True


def make_case(rng, nstat):
    g = Gen(rng)
    env = {}
    lines, expect, feats = ["@echo off"], [], set()
    # the interpreter's own environment must not hold our names
    while len(expect) < nstat:
        nsub = rng.choice([1, 1, 1, 2, 3])
        subs, e2, ok = [], dict(env), True
        for _ in range(nsub):
            fl = rng.random() < 0.45
            node = g.expr(rng.choice([1, 2, 3, 4, 5]), fl)
            name = rng.choice(g.names)
            op = rng.choice([""] * 6 + ["+", "-", "*", "/", "%", "&", "|", "^", "&&", "||", "<<", ">>"])
            fm = is_float(node)
            try:
                before = dict(e2)
                v = ev(node, e2, fm)
                if not conditioned(node, before, fm, v):
                    raise Skip
                if op:
                    cur = e2.get(name.upper(), 0)
                    if isinstance(v, float) and not math.isfinite(v):
                        raise Skip
                    if isinstance(cur, float) and not fm:
                        raise Skip
                    vm = fm
                    c0 = float(cur)
                    if op == "%" and vm and v != int(v):
                        raise Skip
                    v = chk(binop(op, float(cur) if vm else cur, v, vm))
                    if fm and (op == "%" and c0 != int(c0) or op in ("+", "-") and abs(v) < 1e-3 * abs(c0)):
                        raise Skip
                if isinstance(v, float) and not math.isfinite(v):
                    if nsub > 1:
                        raise Skip
                    stored = None
                else:
                    stored = canon(v if isinstance(v, int) else float("%.14g" % v))
            except (Skip, OverflowError, ValueError):
                ok = False
                break
            t = g.text(node)
            sp = rng.choice(["", "", " "])
            subs.append((name, op, sp, t, v))
            if stored is None:
                e2.pop(name.upper(), None)
                nonfin = name
                e2["?" + name.upper()] = 1
            else:
                e2[name.upper()] = stored
                e2.pop("?" + name.upper(), None)
        if not ok or (nsub > 1 and any(k.startswith("?") for k in e2)):
            # a non-finite value is only read back, not computed with
            continue
        n = len(expect)
        quoted = rng.random() < 0.8
        parts = []
        for name, op, sp, t, v in subs:
            s = name + sp + esc(op + "=", quoted) + sp + esc(t, quoted)
            parts.append('"%s"' % s if quoted else s)
        if not quoted and any("," in p for p in parts):
            continue
        lines.append("set /a " + rng.choice(["", " "]) + ",".join(parts))
        seen = {}
        for name, op, sp, t, v in subs:
            seen[name.upper()] = v
        names = sorted(k for k in e2 if not k.startswith("?"))
        shown = list(seen)
        lines.append("echo @#%d#" % n)
        vals = []
        for k in shown:
            lines.append("echo [%" + k + "%]")
            v = e2.get(k, seen[k])
            vals.append(v)
        # every variable the statement touched, inline assignments included
        others = [k for k in names if k not in shown]
        for k in others:
            lines.append("echo [%" + k + "%]")
            vals.append(e2[k])
        expect.append((lines[-1 - len(vals) - 1], vals))
        for k in list(e2):
            if k.startswith("?"):
                nm = k[1:]
                lines.append("set " + nm + "=")
                e2.pop(k)
                e2.pop(nm, None)
        env = e2
    lines.append("echo @#%d#" % len(expect))
    return "\n".join(lines) + "\n", expect


def body():
    c = Check("P08", "exploration",
              "generated SET /A statements (integer and floating-point mode, all documented operators, functions, "
              "constants, compound and inline assignments, several assignments per statement); a statement is "
              "non-trivial if its expression has at least one operator; distinct by its text",
              ["integer results beyond 32 bits, shifts outside 0..30 and shifts of negative numbers are not generated: "
               "the manual leaves them open", "floating-point results are compared to 11 significant digits"])
    b = build.build("plain")
    asan = build.build("asan")
    ncase = c.n(1500, 20000)

    def one(i):
        rng = c.rng(i)
        script, expect = make_case(rng, 25)
        d = c.arena.case_dir({"t.bat": script})
        exe = bat.pbat(asan if i % 6 == 0 else b)
        r = c.run([exe, "t.bat"], d, timeout=30)
        c.arena.drop(d)
        return script, expect, r, i % 6 == 0

    for i, (script, expect, r, isan) in c.pmap(one, range(ncase)):
        rep = {"script": script, **r.brief()}
        if r.timeout:
            c.violation("hang", "SET /A does not terminate", rep)
            continue
        if isan and r.sanitizer():
            c.violation("sanitizer:" + r.sanitizer(), "sanitizer report", rep)
        got = bat.outputs(r.out)
        if r.rc != 0 and len(got) < len(expect):
            c.violation("died:rc%s" % r.rc, "the interpreter died on: %s" % expect[max(0, len(got))][0], rep)
        for n, (stmt, vals) in enumerate(expect):
            c.saw(stmt, any(o in stmt for o in "+-*/%&|^<>~!("), stmt if n == 7 else None, values=len(vals))
            if n not in got:
                c.violation("lost", "no output for: " + stmt, rep)
                break
            g = [x[1:-1] for x in got[n].split("\n") if x.startswith("[")]
            if len(g) != len(vals) or not all(same(a, w) for a, w in zip(g, vals)):
                c.violation("value:" + stmt[:60], "%s gives %s, expected %s" % (stmt, g, vals), rep)
                break
    c.finish(50)


main(body)
