"""Programs that compare the Python translator (pyexec.py) with the interpreter, one language feature at a time
(developer's tool, not part of a check): `python3-vt engine/diffpy.py [FILE]` (probes_py.txt if none is named; lines separated by `;; `.  Each probe is the body of a function
p(a, b, x, y, o, xs): two integers, two floats, a float or None, a list of floats.  It is executed symbolically next to
sacf.py and by Python on random arguments; a certain value (or exception) that Python contradicts although every
obligation is proved is UNSOUND."""
import ast, math, os, random, sys, textwrap
from fractions import Fraction
import difftest as F
import prover
import pyexec, units
import pycontracts as P
from terms import *
from values import *
from cexec import State

ARGS = ["a", "b", "x", "y", "o", "xs"]


class Env(F.Env):
    def app(self, name, a, s):
        if name == "xs":
            return Fraction(self.xs[a[0]]) if 0 <= a[0] < len(self.xs) and self.xs[a[0]] == self.xs[a[0]] else Fraction(0)
        if name == "xs.nan":
            return 0 <= a[0] < len(self.xs) and self.xs[a[0]] != self.xs[a[0]]
        return super().app(name, a, s)


def start(ex):
    st = State()
    key = ("g", "xs")
    iv = new_iv()
    st.mem[key] = Vec(declare_nonneg(var("xs.len", "I")), iv, D(app("xs", (iv,), "R"), app("xs.nan", (iv,), "B")), "d")
    d = lambda n: D(var(n, "R"), var(n + ".nan", "B"))
    return st, [var("a", "I"), var("b", "I"), d("x"), d("y"), pyexec.Opt(var("o.none", "B"), d("o")), Ptr(LV(key))]


def concrete(r):
    f = lambda: r.choice([0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 4.0, -1.0, -0.5, -2.0, 3.0, float("nan")] if r.random() < 0.4 else [0.0, 0.5, 1.0, 2.0, -1.0, 2.5])
    return {"a": r.choice([-2, -1, 0, 1, 2, 3, 5, 7]), "b": r.choice([-3, -1, 0, 1, 2, 4]), "x": f(), "y": f(), "o": None if r.random() < 0.4 else f(), "xs": [f() for _ in range(r.choice([0, 1, 2, 3, 5]))]}


def env_of(c):
    v = {"a": c["a"], "b": c["b"], "xs.len": len(c["xs"]), "o.none": c["o"] is None}
    for k in ("x", "y", "o"):
        z = c[k] if c[k] is not None else 0.0
        v[k + ".nan"] = z != z
        v[k] = Fraction(z) if z == z else Fraction(0)
    e = Env(random.Random(1), {}, v)
    e.xs = c["xs"]
    return e


def value(e, v, st):
    """Python value of a symbolic one; raises Unknown for what is not known"""
    if isinstance(v, D):
        return math.nan if e.ev(v.bad) else float(e.ev(v.v))
    if isinstance(v, T):
        z = e.ev(v)
        return bool(z) if v.s == "B" else int(z) if v.s == "I" else float(z)
    if isinstance(v, pyexec.Opt):
        return None if e.ev(v.none) else value(e, v.v, st)
    if isinstance(v, pyexec.Alt):
        return value(e, v.a if e.ev(v.c) else v.b, st)
    if v is pyexec.NONE:
        return None
    if isinstance(v, pyexec.Str):
        if v.text is None:
            raise F.Unknown("string")
        return v.text
    if isinstance(v, Ptr):
        x = st.mem[v.lv.key]
        for a, b in v.lv.path:
            x = x.f[b] if a == "f" else x.get(b)
        return value(e, x, st)
    if isinstance(v, Vec):
        return [value(e, v.get(num(i)), st) for i in range(e.ev(v.len))]
    if isinstance(v, tuple):
        return tuple(value(e, x, st) for x in v)
    raise F.Unknown(repr(v))


def same(p, q):
    if isinstance(p, (tuple, list)) and isinstance(q, (tuple, list)):
        return type(p) is type(q) and len(p) == len(q) and all(same(u, w) for u, w in zip(p, q))
    if p is None or q is None or isinstance(p, str) or isinstance(q, str):
        return p == q and type(p) is type(q)
    if not math.isfinite(p) or not math.isfinite(q):
        return not math.isfinite(p) and not math.isfinite(q)
    return abs(p - q) <= 1e-9 * max(1, abs(p))


def main(argv):
    src = units.Source()
    text = open(argv[0]).read() if argv else PROBES
    stat = dict(unsupported=0, run=0, agree=0, open=0, unsound=0, unproved=0)
    for n, prog in enumerate(p for p in text.strip("\n").split("\n") if p.strip()):
        body = prog.replace(";; ", "\n")
        code = "def p(a, b, x, y, o, xs):\n" + textwrap.indent(body, "    ")
        node = ast.parse(code).body[0]
        ex = P.new_ex(src)
        st, vals = start(ex)
        try:
            rets, thr = P.run_py(ex, pyexec.PyFn(node, ex.gfr, "probe"), vals, {}, st)
        except Unsupported as e:
            stat["unsupported"] += 1
            print("   unsupported  %-60s %s" % (str(e)[:60], prog))
            continue
        except Exception as e:
            stat["unsupported"] += 1
            print("   !! %s %s  %s" % (type(e).__name__, str(e)[:60], prog))
            continue
        stat["run"] += 1
        g = {}
        exec(code, g)
        r = random.Random(n)
        bad = []
        for _ in range(40):
            c = concrete(r)
            e = env_of(c)
            args = {k: (list(v) if isinstance(v, list) else v) for k, v in c.items()}
            try:
                want = ("ret", g["p"](**args))
            except Exception as err:
                want = ("raise", type(err).__name__)
            try:
                got = None
                for s, v in rets:
                    if e.ev(and_(*s.pc)):
                        got = ("ret", value(e, v, s), value(e, Ptr(LV(("g", "xs"))), s))
                for s, w in thr:
                    if e.ev(and_(*s.pc)):
                        got = ("raise", w.split("::")[-1])
            except (F.Unknown, F.Unspecified):
                stat["open"] += 1
                continue
            if got is None or got[0] != want[0] or got[0] == "ret" and not (same(got[1], want[1]) and same(got[2], args["xs"])):
                bad.append((c, want, got))
            else:
                stat["agree"] += 1
        if bad:
            un = [o.label for o in ex.obls if not prover.prove(list(o.facts) + list(o.pc), o.qfacts, o.goal)[0]]
            stat["unproved" if un else "unsound"] += 1
            if not un:
                print("UNSOUND", prog)
                for c, w, q in bad[:3]:
                    print("      ", c, "\n        python", w, "translator", q)
    print(stat)
    return 1 if stat["unsound"] else 0


PROBES = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "probes_py.txt")).read()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
