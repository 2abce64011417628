"""Differential test of the translation: what the symbolic executor says a function does against the compiled function.

For every contracted C++ function (or those named), the body is executed symbolically from the state its contract is verified in,
once with every callee executed in line and once with the callees replaced by their contracts.  The resulting terms are then evaluated
in random concrete states and compared with what the compiled function does in the same states (fields, returned value, exception,
crash).  This tests the translation, the library models and the evaluation of binder terms against the compiler and libstdc++; it
decides no property and never raises an alarm on its own.

usage: difftest.py [cases N] [seed S] [NAME ...]
"""
import math, os, random, re, subprocess, sys, tempfile, shutil
from fractions import Fraction
from terms import *
import terms as t_
from values import *
from castload import Program
from cexec import Ex, State, Frame, sig
from contract import Ctx
import cexec, loops, contracts as K

REPO = os.environ.get("SACF_REPO", "/repo")
sys.setrecursionlimit(20000)


class Unknown(Exception):
    """the term mentions something that has no concrete meaning here"""


class Unspecified(Exception):
    """the term has no specified value (division by zero)"""


NUMBER = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?")


def extract(s):
    out, p = [], 0
    while True:
        while p < len(s) and s[p] in " \t\r\n\v\f":
            p += 1
        m = NUMBER.match(s, p)
        if not m:
            return out
        out.append(Fraction(m.group(0)))
        p = m.end()


class Env:
    """a lazily sampled concrete state"""
    def __init__(self, rng, known, fixed):
        self.r, self.known, self.v, self.memo = rng, known, dict(fixed), {}
        self.apps = {}
        self.dims = max([2] + [int(x) for k, x in fixed.items() if isinstance(x, int) and not isinstance(x, bool)])
        self.T = [Fraction(0)]
        for _ in range(40):
            self.T.append(self.T[-1] + Fraction(rng.choice([1, 1, 2, 2, 3, 4, 8, 12] + ([] if fixed.get("strictly_increasing") else [0])), 4))
        self.file = None
        self.alias = {}
        self.tol = 0

    def use(self, side):
        self.tol = 0
        self.alias, self.memo, self.bindings, self.bound = side.alias, {}, 0, set()

    def real(self):
        r = self.r
        return Fraction(r.choice([0, 1, 2, 3, 4, 4, 6, 8, 10, 16, -1, -2, -4, -8]), 4)

    def value(self, name, s):
        r = self.r
        if s == "B":
            return r.random() < 0.12
        if s == "I":
            return r.choice([0, 0, 1, 1, 2, 3])
        return self.real()

    # ---- evaluation
    def ev(self, t, b=None):
        if t.op == "var" and t.a[0].startswith("$b"):
            if b is None or t.a[0] not in b:
                raise Unknown(t.a[0])
            return b[t.a[0]]
        if t.fv:
            return self._ev(t, b)
        if t.id in self.memo:
            r = self.memo[t.id]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._ev(t, b)
        except (Unknown, Unspecified) as e:
            self.memo[t.id] = e
            raise
        self.memo[t.id] = r
        return r

    def _ev(self, t, b):
        op = t.op
        if op == "poly":
            tot = 0
            for m, c in t.a:
                x = c
                for a in m:
                    x = x * self.ev(a, b)
                tot = tot + x
            return tot
        if op == "var":
            n = self.alias.get(t.a[0], t.a[0])
            if n not in self.v:
                if n not in self.known:
                    raise Unknown(n)
                self.v[n] = self.value(n, t.s)
            return self.v[n]
        if op == "app":
            return self.app(t.a[0], [self.ev(x, b) for x in t.a[1]], t.s)
        if op == "ite":
            return self.ev(t.a[1] if self.ev(t.a[0], b) else t.a[2], b)
        if op == "inv":
            x = self.ev(t.a[0], b)
            if x == 0:
                raise Unspecified("1/0")
            return (1 / x) if isinstance(x, float) else Fraction(1) / x
        if op == "floor":
            return math.floor(self.ev(t.a[0], b))
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not self.ev(t.a[0], b)
        if op in ("and", "or"):
            stop = op == "or"
            err = None
            for x in t.a:
                try:
                    if self.ev(x, b) == stop:
                        return stop
                except (Unknown, Unspecified) as e:
                    err = e
            if err:
                raise err
            return not stop
        if op in ("le", "lt", "eq"):
            x = self.ev(t.a[0], b)
            return x <= 0 if op == "le" else x < 0 if op == "lt" else abs(x) <= self.tol
        k = "$b%d" % t.a[-1] if op in t_.BIND else None
        if op in ("sum", "exists", "first", "minf"):
            n = self.ev(t.a[{"sum": 1, "exists": 1, "first": 1, "minf": 3}[op]], b)
            if n > 5000:
                raise Unknown("large range")
            rng = range(max(0, int(n)))
            bb = dict(b or {})
            if op == "sum":
                tot = 0
                for i in rng:
                    bb[k] = i
                    tot = tot + self.num(self.ev(t.a[0], bb))
                return tot
            if op == "exists":
                for i in rng:
                    bb[k] = i
                    if self.ev(t.a[0], bb):
                        return True
                return False
            if op == "first":
                for i in rng:
                    bb[k] = i
                    if self.ev(t.a[0], bb):
                        return i
                return len(rng)
            x = self.ev(t.a[2], b)
            for i in rng:
                bb[k] = i
                if self.ev(t.a[0], bb):
                    x = min(x, self.ev(t.a[1], bb))
            return x
        if op in ("least", "nth"):
            bb, left = dict(b or {}), self.ev(t.a[1], b) if op == "nth" else 0
            for i in range(2000):
                bb[k] = i
                if self.ev(t.a[0], bb):
                    if left <= 0:
                        return i
                    left -= 1
            raise Unspecified("no such position")
        raise Unknown(op)

    @staticmethod
    def num(x):
        return int(x) if isinstance(x, bool) else x

    def app(self, name, a, s):
        name = self.alias.get(name, name)
        if name == "exp":
            try:
                return math.exp(a[0])
            except OverflowError:
                return math.inf
        if name == "idiv":
            if a[1] == 0:
                raise Unspecified("idiv by 0")
            return a[0] // a[1]
        if name == "round32":
            import struct
            return Fraction(struct.unpack("f", struct.pack("f", a[0]))[0])
        if name in ("natural_selection", "fast_start") and "T" in self.known:
            at = a[0] if name == "fast_start" else self.app("T", [a[1]], "R") + a[0]
            if any(self.T[i + 1] <= self.T[i] for i in range(self.v["M_datapoints"] - 1)):
                raise Unknown(name)         # the contracts leave the choice among equal times open
            return max(range(self.v["M_datapoints"]), key=lambda m: (-abs(self.T[m] - at), m))
        if name.startswith(("file.", "str.")):
            return self.text(name, a)
        if name == "T" and self.known.get(name):
            return self.T[a[0]] if 0 <= a[0] < len(self.T) else Fraction(999 + a[0])
        k = (name,) + tuple(a)
        base, _, part = name.rpartition(".")
        if base in loops.RAGGED and k not in self.apps:
            m, r, cnt, v = loops.RAGGED[base]
            row, q = 0, a[0]
            while row < 50:
                c = self.ev(subst(cnt, {m: num(row)}))
                if q < c:
                    break
                row, q = row + 1, q - c
            if q < 0 or row >= 50:
                raise Unspecified("outside a concatenation")
            x = vsubst(v, {m: num(row), r: num(q)})
            self.apps[k] = self.ev(x.v if part == "v" else x.bad if part == "nan" else x)
        if k not in self.apps:
            if name not in self.known:
                raise Unknown(name)
            self.apps[k] = self.value(name, s)
        return self.apps[k]

    def text(self, name, a):
        if name == "file.opens":
            return self.file is not None
        ls = self.file or []
        if name == "file.lines":
            return len(ls)
        if name == "file.line":
            if not 0 <= a[1] < len(ls):
                raise Unknown("line")
            return ls[a[1]]
        s = a[0]
        if not isinstance(s, str):
            raise Unknown("string")
        if name == "str.at":
            if not 0 <= a[1] <= len(s):
                raise Unspecified("string subscript")
            return ord(s[a[1]]) if a[1] < len(s) else 0
        if name == "str.len":
            return len(s)
        if name == "str.comma":
            return "," in s
        if name == "str.blank":
            return s.replace(",", " ")
        f = extract(s)
        if name == "str.nf":
            return len(f)
        if not 0 <= a[1] < len(f):
            raise Unspecified("field")
        return f[a[1]]

    # ---- values
    def val(self, v):
        if isinstance(v, D):
            if self.ev(v.bad):
                return math.nan
            return self.ev(v.v)
        if isinstance(v, T):
            return self.ev(v)
        if isinstance(v, Vec):
            n = self.ev(v.len)
            if n > 4000:
                raise Unknown("long vector")
            return [self.val(v.get(num(i))) for i in range(max(0, int(n)))]
        raise Unknown(type(v).__name__)


def names(x, acc):
    """symbols of a value: name -> is a function"""
    if isinstance(x, T):
        for y in [x] + list(atoms_of(x).values()):
            if y.op == "var" and not y.a[0].startswith("$"):
                acc[y.a[0]] = False
            elif y.op == "app":
                acc[y.a[0]] = True
    elif isinstance(x, D):
        names(x.v, acc), names(x.bad, acc)
    elif isinstance(x, Vec):
        names(x.len, acc), names(x.body, acc)
    elif isinstance(x, Obj):
        for y in x.f.values():
            names(y, acc)
    return acc


# ------------------------------------------------------------------ symbolic side
class Side:
    def __init__(self, prog, c, fn, contracts):
        self.error = None
        ex = self.ex = Ex(prog, contracts)
        st = State()
        ex.where = c.name
        env = c.setup(ex, st)
        self.this, self.vals = env["this"], env["args"]
        self.pre = st.copy()
        c.spec(Ctx(c, ex, "pre", self.pre, None, self.this, self.vals))
        self.nfacts, self.nq = len(ex.facts), len(ex.qfacts)
        ex.hint = env.get("hint")
        if ex.hint is not None:
            ex.deffacts += ex.hint.lemmas
        ex.pend = []
        ex.fr = Frame(next(ex.nfid), self.this, fn["_tu"])
        body = [x for x in fn.get("inner", []) if x.get("kind") == "CompoundStmt"]
        parms = [x for x in fn.get("inner", []) if x.get("kind") == "ParmVarDecl"]
        ret = ex.run_body(body[0], parms, self.vals, self.this, fn["_tu"], st, fn=fn, name=c.name)
        self.out = [(st, ret, None)] + [(s, None, w) for s, w in ex.pend]


# ------------------------------------------------------------------ compiled side
PRELUDE = r'''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <fstream>
#include <memory>
#include <set>
#include <map>
#include <algorithm>
#include <functional>
#include <numeric>
#include <limits>
#include <stdexcept>
#include <sys/wait.h>
#include <unistd.h>
%s
static std::string tok() { std::string s; std::cin >> s; return s; }
static void rd(double& x) { x = strtod(tok().c_str(), 0); }
static void rd(float& x) { x = strtod(tok().c_str(), 0); }
static void rd(bool& x) { x = tok() != "0"; }
static void rd(std::string& x) { x = tok(); }
template <class T> typename std::enable_if<std::is_integral<T>::value>::type rd(T& x) { x = (T)strtoll(tok().c_str(), 0, 10); }
template <class T> void rd(std::vector<T>& v) { size_t n = strtoul(tok().c_str(), 0, 10); v.resize(n); for (size_t i = 0; i < n; i++) { T x; rd(x); v[i] = x; } }
static void wr(double x) { printf(" %%.17g", x); }
static void wr(float x) { printf(" %%.17g", (double)x); }
template <class T> typename std::enable_if<std::is_integral<T>::value>::type wr(T x) { printf(" %%lld", (long long)x); }
template <class T> void wr(const std::vector<T>& v) { printf(" [%%zu", v.size()); for (size_t i = 0; i < v.size(); i++) { T x = v[i]; wr(x); } }
'''


def cname(key):
    return "o_" + re.sub(r"\W", "_", str(key[1]))


def ser(x):
    if isinstance(x, list):
        return " ".join([str(len(x))] + [ser(y) for y in x])
    if isinstance(x, bool):
        return str(int(x))
    if isinstance(x, float) and math.isnan(x):
        return "nan"
    if isinstance(x, Fraction):
        return repr(float(x))
    return str(x)


def ctext(v):
    """C++ type of a plain value"""
    if isinstance(v, D):
        return "double"
    if isinstance(v, Vec):
        return "std::vector<%s >" % {"d": "double", "i": "long", "b": "bool"}.get(v.et) if not isinstance(v.et, tuple) else "std::vector<std::vector<double> >"
    if isinstance(v, T):
        return "bool" if v.s == "B" else "long"
    raise Unsupported("driver for " + type(v).__name__)


BASE = {"DataStructure": "static std::vector<double> b_%(n)s{0.0}; DataStructure %(n)s(&b_%(n)s, &b_%(n)s);",
        "Correlator": "Correlator %(n)s(&o_ds);",
        "CorrelationIterator": "CorrelationIterator %(n)s(0.0, 0.0);"}


class Case:
    """the driver code of one function and the order in which its inputs are read"""
    def __init__(self, prog, c, fn, side):
        self.inputs, self.outputs, self.ptrs = [], [], []
        code = []
        ctor = self.ctor = fn["kind"] == "CXXConstructorDecl"
        mem = side.pre.mem
        ptrset = []
        for key, v in sorted(mem.items(), key=lambda kv: (isinstance(kv[1], Obj) and {"Correlator": 1, "CorrelationIterator": 1}.get(kv[1].cls, 0), str(kv[0]))):
            n = cname(key)
            if ctor and key == side.this.key:
                continue
            if isinstance(v, Obj):
                code.append(BASE[v.cls] % {"n": n})
                self.obj(v, n, LV(key), code, ptrset)
            elif isinstance(v, T) and key[1] == "filename":
                code.append("std::string %s; rd(%s);" % (n, n))
                self.inputs.append("filename")
            else:
                code.append("%s %s; rd(%s);" % (ctext(v), n, n))
                self.inputs.append(v)
                self.outputs.append((n, LV(key)))
        args = []
        for a in side.vals:
            if isinstance(a, Ref):
                args.append(cname(a.lv.key))
            elif isinstance(a, Ptr):
                args.append("&" + cname(a.lv.key))
            else:
                n = "a%d" % len(args)
                code.append("%s %s; rd(%s);" % (ctext(a), n, n))
                self.inputs.append(a)
                args.append(n)
        code += ptrset
        self.ret = False
        if ctor:
            n = cname(side.this.key)
            cls = mem[side.this.key].cls
            code.append("%s %s(%s);" % (cls, n, ", ".join(args)))
            self.fields_out(mem[side.this.key], n, side.this)
        else:
            rt = fn["type"]["qualType"].split("(")[0].strip()
            call = "%s.%s(%s)" % (cname(side.this.key), fn["name"], ", ".join(args))
            if rt == "void":
                code.append(call + ";")
            else:
                self.ret = True
                code.append("auto r = %s; printf(\" ret\"); wr(r);" % call)
        for n, lv in self.outputs:
            code.append("wr(%s);" % n)
        for n, m in self.ptrs:
            code.append("wr(%s == %s);" % (n, m))
        self.code = "\n    ".join(code)
        # a case must be readable whole even when the callee dies

    def obj(self, v, n, lv, code, ptrset):
        for k, x in v.f.items():
            if isinstance(x, Ptr):
                ptrset.append("%s.%s = &%s;" % (n, k, cname(x.lv.key)))
                self.ptrs.append(("%s.%s" % (n, k), "&" + cname(x.lv.key)))
            elif isinstance(x, Obj):
                self.obj(x, n + "." + k, lv.f(k), code, ptrset)
            elif isinstance(x, (D, T, Vec)):
                code.append("rd(%s.%s);" % (n, k))
                self.inputs.append(x)
                self.outputs.append((n + "." + k, lv.f(k)))

    def fields_out(self, v, n, lv):
        for k, x in v.f.items():
            if isinstance(x, Obj):
                self.fields_out(x, n + "." + k, lv.f(k))
            elif isinstance(x, (D, T, Vec)):
                self.outputs.append((n + "." + k, lv.f(k)))


def build(cases, d):
    srcs = ["%s/sacf/correlator/Correlator.cpp" % REPO, "%s/sacf/datastructure/DataStructure.cpp" % REPO]
    excs = sorted(set(re.findall(r"class\s+(\w+)\s*:\s*public\s+std::exception", open(REPO + "/sacf/include/DataStructure.h").read())))
    src = PRELUDE % "\n".join('#include "%s"' % s for s in srcs)
    for i, (name, cs) in enumerate(cases):
        src += "static void f%d() {\n    %s\n}\n" % (i, cs.code)
    src += "int main(int argc, char** argv) {\n  int f = atoi(argv[1]);\n  try {\n    switch (f) {\n"
    for i in range(len(cases)):
        src += "    case %d: f%d(); break;\n" % (i, i)
    src += "    }\n  }\n"
    for e in excs:
        src += '  catch (%s&) { printf(" throw %s\\n"); return 0; }\n' % (e, e)
    src += '  catch (std::bad_alloc&) { printf(" throw std::bad_alloc\\n"); return 0; }\n  catch (std::exception& e) { printf(" throw std %s\\n", typeid(e).name()); return 0; }\n  printf("\\n"); return 0;\n}\n'
    p = os.path.join(d, "drv.cpp")
    open(p, "w").write(src)
    r = subprocess.run(["g++", "-std=c++14", "-O1", "-D_GLIBCXX_DEBUG", "-w", "-fno-access-control", "-I", REPO + "/sacf/include", "-I/usr/include/pypy3.9", "-include", "/opt/vp/compat/pypy_compat.h", p, "-o", d + "/drv"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(r.stdout[-3000:])


def parse(toks, pos, like_list=False):
    t = toks[pos]
    if t.startswith("["):
        n = int(t[1:])
        pos += 1
        out = []
        for _ in range(n):
            x, pos = parse(toks, pos)
            out.append(x)
        return out, pos
    return (float(t) if re.search(r"[.einEIN]", t) else int(t)), pos + 1


def same(a, b):
    """symbolic value a, compiled value b"""
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and math.isnan(a):
        return not math.isfinite(b)
    if isinstance(b, list) or (isinstance(b, float) and not math.isfinite(b)):
        return False
    if isinstance(a, bool):
        return int(a) == b
    return abs(float(a) - b) <= 1e-9 * max(1.0, abs(float(a)))


TEXT = ["1.5 2", "2,3", " 3.25,4,0.5", "4 5 0.25", "# 1 2 3", "#", "", "abc", "5", "6,", "6,x", "7 8 x", "1e1, 2e-1", "\t9 -1", ",1 2", "10 11\r", "x 1 2", " # 1 2", "-0.5,.5"]


def sample(side, rng, known, tries=400):
    for _ in range(tries):
        N, M = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 3, 4, 5, 6])
        fixed = {"N_datasets": N, "M_datapoints": M, "err_len": rng.choice([0, N * M]), "strictly_increasing": rng.random() < 0.5}
        fixed = {k: v for k, v in fixed.items() if k in known}
        ln = rng.choice([0, 1, 2, 3, N, M])
        for k in known:
            if k.endswith(".len") and not known[k]:
                fixed[k] = ln if rng.random() < 0.8 else rng.choice([0, 1, 2, 3, N, M])
        for k in ("lag_resolution", "alpha"):
            if k in known and rng.random() < 0.9:
                fixed[k] = Fraction(rng.choice([1, 2, 4, 8, 3]), 4)
        if "max_lag" in known and rng.random() < 0.8:
            fixed["max_lag"] = Fraction(rng.randint(0, 16), 4)
            fixed["min_lag"] = fixed["max_lag"] - Fraction(rng.randint(0, 20), 4)
        e = Env(rng, known, fixed)
        inner = rng.choice([0, 1, 2, 3])
        keep = rng.random() < 0.8
        for k in known:
            if k.endswith(".len2") and keep:
                for i in range(12):
                    e.apps[(k, i)] = ln if k.startswith("values") or rng.random() < 1 else inner
        if "filename" in known:
            e.v["filename"] = "data.txt"
            e.file = [rng.choice(TEXT[:4] if rng.random() < 0.6 else TEXT) for _ in range(rng.choice([0, 1, 2, 3, 5]))] if rng.random() < 0.95 else None
        try:
            if all(holds(e, f) for f in side.ex.facts[:side.nfacts]) and all(qholds(e, q) for q in side.ex.qfacts[:side.nq]):
                return e
        except Unspecified:
            pass
    return None


def holds(e, f):
    try:
        return e.ev(f)
    except Unknown:
        return True


def qholds(e, q):
    import itertools
    vs = list(q.vars)
    r = range(-1, 8) if len(vs) == 1 else range(0, 6)
    for c in itertools.product(r, repeat=len(vs)):
        if not holds(e, subst(q.body, {v: num(x) for v, x in zip(vs, c)})):
            return False
    return True


def run(argv):
    cases, seed, wanted, modes = 60, 1, [], ("inline", "contracts")
    a = list(argv)
    while a:
        x = a.pop(0)
        if x == "cases":
            cases = int(a.pop(0))
        elif x == "seed":
            seed = int(a.pop(0))
        elif x == "mode":
            modes = (a.pop(0),)
        else:
            wanted.append(x)
    prog = Program()
    defs = {}
    for fn in prog.defs.values():
        defs.setdefault(sig(prog, fn), fn)
    todo = []
    notes = []
    for s, c in K.CONTRACTS.items():
        if wanted and c.name not in wanted or s not in defs:
            continue
        sides = []
        for m in modes:
            others = {} if m == "inline" else {k: v for k, v in K.CONTRACTS.items() if k != s}
            try:
                sides.append((m, Side(prog, c, defs[s], others)))
            except (Unsupported, KeyError) as e:
                notes.append("%s (%s): not executed: %s" % (c.name, m, e))
        if sides:
            todo.append((c, defs[s], sides, Case(prog, c, defs[s], sides[0][1])))
    d = tempfile.mkdtemp(prefix="difftest")
    bad = 0
    tot = dict(states=0, leaves=0, open=0, crash=0)
    try:
        build([(c.name, cs) for c, _, _, cs in todo], d)
        for i, (c, fn, sides, cs) in enumerate(todo):
            rng = random.Random("%d %s" % (seed, c.name))
            n = lv_ok = lv_open = 0
            fails = []
            all_known = []
            for _, sd in sides:
                known = {}
                for key, v in sd.pre.mem.items():
                    if not (cs.ctor and key == sd.this.key):
                        names(v, known)
                for v in sd.vals:
                    names(v, known)
                all_known.append(known)
                sd.alias = {b: a for a, b in zip(all_known[0], known) if a != b}
            known = all_known[0]
            known["strictly_increasing"] = False
            for j in range(cases):
                env = sample(sides[0][1], rng, known)
                if env is None:
                    continue
                n += 1
                env.use(sides[0][1])
                try:
                    text = " ".join("data.txt" if x == "filename" else ser(env.val(x)) for x in cs.inputs)
                except (Unknown, Unspecified) as e:
                    notes.append("%s: state not printable: %s" % (c.name, e))
                    break
                p = os.path.join(d, "data.txt")
                if os.path.exists(p):
                    os.unlink(p)
                if env.file is not None:
                    open(p, "w").write("".join(l + "\n" for l in env.file))
                r = subprocess.run([d + "/drv", str(i)], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
                for m, sd in sides:
                    env.use(sd)
                    x = compare(env, sd, cs, r, tot)
                    lv_ok += x[0]
                    lv_open += x[1]
                    for f in x[2]:
                        fails.append("%s: %s\n      input %s%s" % (m, f, text, "  file %r" % env.file if env.file is not None else ""))
            tot["states"] += n
            tot["leaves"] += lv_ok
            tot["open"] += lv_open
            print("%-34s %3d states, %5d values agree, %d open, %d differ" % (c.name, n, lv_ok, lv_open, len(fails)))
            for f in fails[:4]:
                print("    DIFFERS " + f)
            bad += len(fails)
    finally:
        shutil.rmtree(d)
    for x in sorted(set(notes)):
        print("  note: " + x)
    print("TOTAL %(states)d states, %(leaves)d values agree, %(open)d left open by contracts, %(crash)d states outside the preconditions" % tot, "DIFFERENCES %d" % bad)
    return bad


class Entry:
    """the entry state of a function whose obligations were generated"""
    def __init__(self, ex):
        self.ex, self.alias = ex, {}
        self.pre, self.this, self.vals, self.nfacts, self.nq = ex.entry


def counterexample(prog, c, fn, ex, obls, seconds=40):
    """a concrete entry state in which one of these obligations is false, and what the compiled function does in it"""
    import itertools, time
    until = time.time() + seconds
    sd = Entry(ex)
    cs = Case(prog, c, fn, sd)
    known = {}
    for key, v in sd.pre.mem.items():
        if not (cs.ctor and key == sd.this.key):
            names(v, known)
    for v in sd.vals:
        names(v, known)
    known["strictly_increasing"] = False
    rng = random.Random(1)
    d = None
    try:
        while time.time() < until:
            env = sample(sd, rng, known)
            if env is None:
                continue
            env.use(sd)
            for o in obls:
                sk = {}
                for t in (o.goal,) + tuple(o.pc):
                    for y in [t] + list(atoms_of(t).values()):
                        if y.op == "var" and y.a[0].startswith("$") and not y.a[0].startswith("$b"):
                            sk[y.id] = y
                if len(sk) > 3:
                    continue
                for vals in itertools.product(range(7), repeat=len(sk)):
                    m = {y: num(x) for y, x in zip(sk.values(), vals)}
                    try:
                        if not all(env.ev(subst(p, m)) for p in o.pc) or env.ev(subst(o.goal, m)):
                            continue
                    except (Unknown, Unspecified):
                        continue
                    text = " ".join("data.txt" if x == "filename" else ser(env.val(x)) for x in cs.inputs)
                    if d is None:
                        d = tempfile.mkdtemp(prefix="counterexample")
                        build([(c.name, cs)], d)
                    if env.file is not None:
                        open(d + "/data.txt", "w").write("".join(l + "\n" for l in env.file))
                    r = subprocess.run([d + "/drv", "0"], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d, timeout=10)
                    out = r.stdout.split()
                    after, pos = {}, 0
                    if r.returncode == 0 and "throw" not in out:
                        for n in (["returned value"] if cs.ret else []) + [n for n, _ in cs.outputs]:
                            pos += n == "returned value"
                            after[n], pos = parse(out, pos)
                    before = {}
                    for n, lv in cs.outputs:
                        try:
                            before[n] = show_(env.val(sd.ex.read(sd.pre, lv)))
                        except (Unknown, Unspecified, Unsupported, KeyError):
                            pass
                    return {"function": c.sig, "obligation": o.label, "entry_state": before, "inputs_in_driver_order": text, "file": env.file,
                            "at": {y.a[0]: x for y, x in zip(sk.values(), vals)},
                            "compiled_function": after or ("raises " + r.stdout.strip() if r.returncode == 0 else "dies with status %d: %s" % (r.returncode, r.stderr[-200:])),
                            "note": "an entry state the contract admits; whether a user can reach it is not decided here"}
        return None
    finally:
        if d:
            shutil.rmtree(d)


def compare(env, sd, cs, r, tot):
    fails = []
    # safety
    unsafe = False
    for o in sd.ex.obls:
        if o.kind in ("safety", "requires", "terminates"):
            try:
                if all(env.ev(p) for p in o.pc) and not env.ev(o.goal):
                    unsafe = True
            except (Unknown, Unspecified):
                pass
    if unsafe:
        tot["crash"] += 1
        return 0, 0, []
    if r.returncode != 0:
        return 0, 0, ["the compiled function dies (%s) %s" % (r.returncode, r.stderr[-200:])]
    toks = r.stdout.split()
    thrown = None
    if "throw" in toks:
        thrown = " ".join(toks[toks.index("throw") + 1:])
    live = []
    for s, ret, w in sd.out:
        try:
            if all(env.ev(p) for p in s.pc):
                live.append((s, ret, w))
        except (Unknown, Unspecified) as e:
            return 0, 1, []
    if len(live) != 1:
        return 0, 0, ["%d outcomes are possible: %s; compiled: %s" % (len(live), [w for _, _, w in live], r.stdout[:200])]
    s, ret, w = live[0]
    if w or thrown:
        if w is None or thrown is None or not thrown.endswith(str(w).split("::")[-1]):
            return 0, 0, ["raises %s, compiled raises %s" % (w, thrown)]
        return 1, 0, []
    ok = opn = 0
    pos = 0
    if cs.ret:
        pos = 1
        got, pos = parse(toks, pos)
        v = sd.ex.read(s, ret.lv) if isinstance(ret, Ref) else ret
        o, p, f = cmp1(env, "returned value", v, got)
        ok, opn, fails = ok + o, opn + p, fails + f
    for n, lv in cs.outputs:
        got, pos = parse(toks, pos)
        v = sd.ex.read(s, lv)
        o, p, f = cmp1(env, n, v, got)
        ok, opn, fails = ok + o, opn + p, fails + f
    for n, m in cs.ptrs:
        got, pos = parse(toks, pos)
        if not got:
            fails.append("%s is no longer %s" % (n, m))
    if env.bindings:
        # what the contracts promise of the results they leave open must hold of the compiled results
        ok += env.bindings
        env.tol = 1e-9      # the compiled results are rounded
        for f in sd.ex.facts[sd.nfacts:]:
            try:
                if not holds(env, f):
                    fails.append("promised but false: %s" % show(f)[:300])
            except Unspecified:
                pass
        for q in sd.ex.qfacts[sd.nq:] + sd.ex.deffacts:
            try:
                if not qholds(env, q):
                    fails.append("promised but false: %s" % show(q.body)[:3000])
            except Unspecified:
                pass
    return ok, opn, fails


def bind(env, v, got):
    """a result that a contract leaves open takes the compiled value (its ensures clauses are then checked of it)"""
    def put(t, x):
        if t.op == "var":
            if t.a[0] in env.v or t.a[0] in env.known:
                return False
            env.v[t.a[0]] = x
        elif t.op == "app":
            k = (t.a[0],) + tuple(env.ev(a) for a in t.a[1])
            if t.a[0] in env.known or k in env.apps:
                return False
            env.apps[k] = x
            env.bound.add(t.a[0])
        else:
            return False
        return True

    def go(v, x):
        if isinstance(v, D):
            bad = not math.isfinite(x)
            ok = put(v.v, Fraction(0) if bad else Fraction(x))
            return (v.bad is FALSE or put(v.bad, bad)) and ok
        if isinstance(v, T):
            return put(v, x)
        if isinstance(v, Vec):
            return put(v.len, len(x)) and all(go(v.get(num(i)), y) for i, y in enumerate(x))
        return False
    try:
        r = go(v, got)
    except (Unknown, Unspecified):
        r = False
    env.memo = {}
    return r


def cmp1(env, n, v, got):
    try:
        want = env.val(v)
    except Unknown as e:
        if bind(env, v, got):
            env.bindings += 1
            return 0, 0, []
        if os.environ.get("SHOWOPEN"):
            print("open", n, e)
        return 0, 1, []
    except Unspecified as e:
        return 0, 0, ["%s: the symbolic value is unspecified (%s), compiled %s" % (n, e, got)]
    if same(want, got):
        return 1, 0, []
    return 0, 0, ["%s: symbolic %s, compiled %s" % (n, show_(want), got)]


def show_(x):
    return "[%s]" % ", ".join(show_(y) for y in x) if isinstance(x, list) else str(float(x)) if isinstance(x, Fraction) else str(x)


if __name__ == "__main__":
    sys.exit(1 if run(sys.argv[1:]) else 0)
