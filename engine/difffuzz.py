"""Random programs for the translator: methods made at random from the statements and library calls it accepts are added to a scratch
copy of DataStructure, executed symbolically, and compared with the compiled methods in random states (see difftest.py).  A difference
counts only if the prover also accepts every obligation of that method: then something proved is false.

usage: difffuzz.py [programs N] [seed S] [states K]
"""
import os, random, shutil, subprocess, sys, tempfile


class Gen:
    def __init__(self, r):
        self.r = r

    def method(self, name):
        self.n = 0
        self.loops = 0
        self.ints, self.dbls, self.vecs, self.ivecs, self.bools = ["a"], ["x", "y"], ["t", "norm_t"], [], []
        self.ro = {"a"}                 # loop counters and bounds are not assigned
        self.lines = ["std::size_t n = norm_t.size();"]
        b = self.block(self.r.randint(2, 5), 0)
        out = self.r.choice(self.dbls)
        t = self.r.choice(["double", "double", "int", "bool", "std::vector<double>"])
        if t == "double":
            b.append("return %s;" % self.dbl(1))
        elif t == "int":
            b.append("return %s;" % self.int(1))
        elif t == "bool":
            b.append("return %s;" % self.cond(1))
        else:
            b.append("return %s;" % self.r.choice(self.vecs))
        head = "%s DataStructure::%s(int a, double x, double y)" % (t, name)
        return "%s %s(int, double, double);" % (t, name), head + " {\n    " + "\n    ".join(["const int n = (int)norm_t.size();"] + b) + "\n}\n"

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # expressions
    def int(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.35:
            return r.choice(self.ints + ["n", "0", "1", "2", "3"])
        if c < 0.6:
            return "(%s %s %s)" % (self.int(d - 1), r.choice(["+", "-", "*"]), self.int(d - 1))
        if c < 0.68:
            return "(%s %s %s)" % (self.int(d - 1), r.choice(["/", "%"]), r.choice(["2", "3"]))
        if c < 0.76:
            return "(int)%s.size()" % r.choice(self.vecs)
        if c < 0.84:
            return "(int)%s" % r.choice(["std::floor(%s)" % self.dbl(d - 1), self.dbl(d - 1) if r.random() < .5 else "(%s)" % self.dbl(d - 1)])
        if c < 0.92:
            return "(%s ? %s : %s)" % (self.cond(d - 1), self.int(d - 1), self.int(d - 1))
        return "std::%s(%s, %s)" % (r.choice(["min", "max"]), self.ival(d - 1), self.ival(d - 1))

    def ival(self, d):
        return "(int)(%s)" % self.int(d)

    def at(self, v, d):
        """an element that exists"""
        return v, self.r.choice(self.idx) if self.idx else None

    idx = []

    def dbl(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.3:
            return r.choice(self.dbls + ["0.0", "1.0", "0.5", "2.0"])
        if c < 0.5:
            return "(%s %s %s)" % (self.dbl(d - 1), r.choice(["+", "-", "*", "+", "-"]), self.dbl(d - 1))
        if c < 0.56:
            return "(%s / %s)" % (self.dbl(d - 1), r.choice(["2.0", "4", "(1 + std::abs(%s))" % self.dbl(d - 1)]))
        if c < 0.62:
            return "(double)%s" % self.int(d - 1)
        if c < 0.68:
            return "std::abs(%s)" % self.dbl(d - 1)
        if c < 0.74:
            return "std::%s(%s, %s)" % (r.choice(["min", "max"]), self.dv(d - 1), self.dv(d - 1))
        if c < 0.8:
            return "(%s ? %s : %s)" % (self.cond(d - 1), self.dbl(d - 1), self.dbl(d - 1))
        if self.idx and c < 0.95:
            v, i = r.choice(self.idx)
            return "%s[%s]" % (v, i)
        return r.choice(["norm_t.back()", "norm_t.front()", "norm_t[n / 2]", "t[n - 1]", "norm_t.at(0)", "*norm_t.begin()",
                         "std::accumulate(norm_t.begin(), norm_t.end(), 0.0)", "*std::max_element(t.begin(), t.end())",
                         "*std::min_element(t.begin(), t.end())", "std::inner_product(t.begin(), t.end(), norm_t.begin(), 0.0)"])

    def dv(self, d):
        return "(double)(%s)" % self.dbl(d)

    def cond(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.4:
            return "(%s %s %s)" % (self.dbl(0), r.choice(["<", "<=", ">", ">=", "==", "!="]), self.dbl(max(0, d - 1)))
        if c < 0.6:
            return "(%s %s %s)" % (self.int(0), r.choice(["<", "<=", ">", ">=", "==", "!="]), self.int(d - 1))
        if c < 0.7:
            return "!%s" % self.cond(d - 1)
        if c < 0.75 and self.bools:
            return r.choice(self.bools)
        if c < 0.8:
            return "std::isnan(%s)" % self.dbl(d - 1)
        return "(%s %s %s)" % (self.cond(d - 1), r.choice(["&&", "||"]), self.cond(d - 1))

    # statements
    def block(self, k, d, loop=False):
        saved = (list(self.ints), list(self.dbls), list(self.vecs), list(self.bools), list(self.idx))
        out = []
        for _ in range(k):
            out += self.stmt(d, loop)
        if d > 0:
            self.ints, self.dbls, self.vecs, self.bools, self.idx = saved
        return out

    def assign(self, d):
        r = self.r
        c = r.random()
        ints = [i for i in self.ints if i not in self.ro]
        if c < 0.5 or not ints:
            v = r.choice(self.dbls)
            return ["%s %s %s;" % (v, r.choice(["=", "+=", "-=", "+=", "*="]), self.dbl(2))]
        if c < 0.85:
            v = r.choice(ints)
            return [r.choice(["%s %s %s;" % (v, r.choice(["=", "+=", "-="]), self.int(1)), "%s++;" % v, "--%s;" % v])]
        if self.bools:
            return ["%s = %s;" % (r.choice(self.bools), self.cond(1))]
        return ["x = %s;" % self.dbl(1)]

    def stmt(self, d, loop):
        r = self.r
        c = r.random()
        if c < 0.18 and d < 2:
            k = r.choice("ddiivb")
            if k == "d":
                v = self.fresh("d")
                s = ["%s %s = %s;" % (r.choice(["double", "double", "auto"]), v, self.dv(2))]
                self.dbls.append(v)
            elif k == "i":
                v = self.fresh("i")
                s = ["int %s = %s;" % (v, self.int(2))]
                self.ints.append(v)
            elif k == "b":
                v = self.fresh("b")
                s = ["bool %s = %s;" % (v, self.cond(1))]
                self.bools.append(v)
            else:
                v = self.fresh("v")
                s = [r.choice(["std::vector<double> %s;" % v, "std::vector<double> %s(n, %s);" % (v, self.dbl(1)), "std::vector<double> %s = norm_t;" % v,
                               "std::vector<double> %s(t.begin(), t.end());" % v, "std::vector<double> %s{%s, %s};" % (v, self.dv(1), self.dv(1)),
                               "auto %s = t;" % v])]
                self.vecs.append(v)
            return s
        if c < 0.4:
            return self.assign(d)
        if c < 0.52:
            s = ["if (%s) {" % self.cond(2)] + self.block(r.randint(1, 2), d + 1, loop)
            if loop and r.random() < 0.3:
                s.append(r.choice(["break;", "continue;"]))
            elif r.random() < 0.05 and False:
                s.append("return 0;")
            s.append("}")
            if r.random() < 0.4:
                s[-1] = "} else {"
                s += self.block(1, d + 1, loop) + ["}"]
            return s
        if c < 0.72:
            own = [v for v in self.vecs if v.startswith("v")]
            if not own:
                return self.assign(d)
            v = r.choice(own)
            if loop:
                return ["%s.push_back(%s);" % (v, self.dbl(2))]
            e = self.fresh("e")
            return [r.choice([
                "%s.push_back(%s);" % (v, self.dbl(2)), "%s.emplace_back(%s);" % (v, self.dv(1)),
                "%s.resize(%s, %s);" % (v, "n", self.dbl(1)), "%s.insert(%s.end(), norm_t.begin(), norm_t.end());" % (v, v),
                "%s.insert(%s.begin(), %s);" % (v, v, self.dv(1)), "%s = norm_t;" % v, "%s.clear();" % v, "%s.assign(n, %s);" % (v, self.dv(1)),
                "std::transform(norm_t.begin(), norm_t.end(), std::back_inserter(%s), [&](double %s) { return %s; });" % (v, e, self.with_dbl(e)),
                "%s.resize(n); std::transform(t.begin(), t.end(), %s.begin(), [&](double %s) { return %s; });" % (v, v, e, self.with_dbl(e)),
                "%s.resize(n); std::transform(t.begin(), t.end(), norm_t.begin(), %s.begin(), std::%s<double>());" % (v, v, r.choice(["minus", "plus", "multiplies"])),
                "std::reverse(%s.begin(), %s.end());" % (v, v), "std::fill(%s.begin(), %s.end(), %s);" % (v, v, self.dv(1)),
                "for (double& %s : %s) %s %s %s;" % (e, v, e, r.choice(["=", "+=", "-=", "*="]), self.dbl(1)),
                "%s.swap(%s);" % (v, r.choice(own)), "if (!%s.empty()) %s.pop_back();" % (v, v),
                "x += std::count_if(%s.begin(), %s.end(), [&](double %s) { return %s > %s; });" % (v, v, e, e, self.dbl(1)),
                "x = std::accumulate(%s.begin(), %s.end(), 0.0, [](double p, double q) { return p + q * q; });" % (v, v),
            ])]
        if self.loops > 2 or d > 1:
            return self.assign(d)
        self.loops += 1
        return self.loop(d)

    def with_dbl(self, e):
        self.dbls.append(e)
        s = self.dbl(2)
        self.dbls.remove(e)
        return s

    def loop(self, d):
        r = self.r
        c = r.random()
        i = self.fresh("k")
        if c < 0.15:
            e = self.fresh("e")
            self.dbls.append(e)
            v = r.choice(["t", "norm_t"])
            b = self.block(r.randint(1, 3), d + 1, True)
            self.dbls.remove(e)
            return ["for (%s %s : %s) {" % (r.choice(["double", "const auto&", "const double"]), e, v)] + b + ["}"]
        self.ints.append(i)
        self.ro.add(i)
        save = list(self.idx)
        if c < 0.6:
            lo, hi, inc = r.choice([("0", "n", "++%s"), ("0", "n", "%s++"), ("1", "n", "++%s"), ("0", "n - 1", "++%s"), ("a", "n", "++%s"), ("0", "a", "++%s"), ("0", "n", "%s += 2")])
            head = "for (int %s = %s; %s < %s; %s) {" % (i, lo, i, hi, inc % i)
            if lo != "a" and hi != "a":
                self.idx += [("norm_t", i), ("t", i)]
                if lo == "1":
                    self.idx += [("norm_t", i + " - 1")]
                if hi == "n - 1":
                    self.idx += [("norm_t", i + " + 1")]
            pre, tail = [], []
        elif c < 0.7:
            head = "for (int %s = n - 1; %s >= 0; --%s) {" % (i, i, i)
            self.idx += [("norm_t", i), ("t", i)]
            pre, tail = [], []
        elif c < 0.85:
            pre, head, tail = ["int %s = 0;" % i], "while (%s < n && %s) {" % (i, self.sub_idx(i)), ["++%s;" % i]
            self.idx += [("norm_t", i), ("t", i)]
        else:
            pre, head, tail = ["int %s = 0;" % i], "while (true) {", None
            self.idx += [("norm_t", i)]
            tail = ["++%s;" % i]
            b = ["if (%s >= n) break;" % i] + self.block(r.randint(1, 2), d + 1, False)
            self.idx = save
            self.ints.remove(i)
            return pre + [head] + b + tail + ["}"] if d == 0 else pre + [head] + b + tail + ["}"]
        b = self.block(r.randint(1, 3), d + 1, not tail)
        own = [v for v in self.vecs if v.startswith("v")]
        if own and r.random() < 0.2 and head.startswith("for (int %s = 0; %s < n;" % (i, i)):
            v = r.choice(own)
            pre = ["%s.resize(n);" % v] if d == 0 else []
            if pre:
                b.append("%s[%s] %s %s;" % (v, i, r.choice(["=", "+="]), self.dbl(1)))
        self.idx = save
        self.ints.remove(i)
        return pre + [head] + b + tail + ["}"]

    def sub_idx(self, i):
        return self.r.choice(["norm_t[%s] < x" % i, "!(norm_t[%s] > y)" % i, "t[%s] != x" % i, "x < y", "norm_t[%s] <= norm_t.back()" % i])


def main(argv):
    progs, seed, states = 40, 1, 12
    a = list(argv)
    while a:
        k = a.pop(0)
        if k == "programs":
            progs = int(a.pop(0))
        elif k == "seed":
            seed = int(a.pop(0))
        elif k == "states":
            states = int(a.pop(0))
    src = os.environ.get("SACF_REPO", "/repo")
    d = tempfile.mkdtemp(prefix="difffuzz")
    try:
        shutil.copytree(src + "/sacf", d + "/sacf", symlinks=True)
        os.environ["SACF_REPO"] = d
        r = random.Random(seed)
        decls, defs, nm = [], [], []
        for i in range(progs):
            g = Gen(r)
            n = "fz%d" % i
            for _ in range(50):
                dc, df = g.method(n)
                t = d + "/try.cpp"
                open(t, "w").write("#include <vector>\n#include <cmath>\n#include <algorithm>\n#include <numeric>\n#include <iterator>\n#include <functional>\n#include <array>\n#include <memory>\n#include <limits>\n#include <tuple>\n#include <stdexcept>\n#include <string>\nstruct DataStructure { std::vector<double> t, norm_t; %s };\n%s" % (dc, df))
                if subprocess.run(["g++", "-std=c++14", "-fsyntax-only", "-w", t], stderr=subprocess.DEVNULL).returncode == 0:
                    decls.append(dc)
                    defs.append(df)
                    nm.append(n)
                    break
        h = d + "/sacf/include/DataStructure.h"
        s = open(h).read()
        s = s.replace("    long getVectorIndex", "    " + "\n    ".join(decls) + "\n    long getVectorIndex", 1)
        open(h, "w").write(s)
        c = d + "/sacf/datastructure/DataStructure.cpp"
        open(c, "a").write("\n#include <functional>\n#include <array>\n#include <memory>\n#include <limits>\n#include <tuple>\n#include <stdexcept>\n#include <string>\n#include <iterator>\n#include <cmath>\n#include <numeric>\n#include <algorithm>\n" + "\n".join(defs))
        return fuzz(nm, dict(zip(nm, defs)), states, seed)
    finally:
        shutil.rmtree(d)


def fuzz(nm, text, states, seed):
    import difftest as F
    import contracts as K, prover
    from castload import Program
    from contract import Contract
    from cexec import sig
    from values import Unsupported, D
    from terms import var
    prog = F.Program()
    by = {fn["name"]: fn for fn in prog.defs.values()}
    todo = []
    stat = dict(unsupported=0, run=0, differ=0, unsound=0)
    why = {}
    for n in nm:
        fn = by[n]
        c = Contract(n, sig(prog, fn), lambda c: None, K.with_ds(lambda: var("a_in", "I"), lambda: D(var("x_in", "R")), lambda: D(var("y_in", "R"))))
        try:
            sd = F.Side(prog, c, fn, {})
        except Unsupported as e:
            stat["unsupported"] += 1
            k = str(e)[:60]
            why[k] = why.get(k, 0) + 1
            continue
        except Exception as e:
            stat["unsupported"] += 1
            k = "!! %s: %s" % (type(e).__name__, str(e)[:60])
            why[k] = why.get(k, 0) + 1
            if os.environ.get("TB"):
                import traceback
                print(text[n])
                traceback.print_exc()
            continue
        todo.append((c, fn, [("inline", sd)], F.Case(prog, c, fn, sd)))
    d = F.tempfile.mkdtemp(prefix="difffuzzrun")
    tot = dict(crash=0)
    open_ = agree = 0
    try:
        F.build([(c.name, cs) for c, _, _, cs in todo], d)
        for i, (c, fn, sides, cs) in enumerate(todo):
            rng = random.Random("%d %s" % (seed, c.name))
            sd = sides[0][1]
            known = {}
            for v in list(sd.pre.mem.values()) + list(sd.vals):
                F.names(v, known)
            sd.alias = {}
            fails = []
            stat["run"] += 1
            for _ in range(states):
                env = F.sample(sd, rng, known)
                if env is None:
                    continue
                env.use(sd)
                inp = " ".join(F.ser(env.val(x)) for x in cs.inputs)
                try:
                    r = subprocess.run([d + "/drv", str(i)], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d, timeout=5)
                except subprocess.TimeoutExpired:
                    class r:
                        returncode, stdout, stderr = 99, "", "no termination"
                o, p, f = F.compare(env, sd, cs, r, tot)
                agree += o
                open_ += p
                fails += [(x, inp) for x in f]
            if fails:
                stat["differ"] += 1
                un = []
                for o in sd.ex.obls:
                    ok, how = prover.prove(list(o.facts) + list(o.pc), o.qfacts, o.goal)
                    if not ok:
                        un.append(o.label)
                if not un:
                    stat["unsound"] += 1
                print(("UNSOUND " if not un else "unproved (%s) " % un[:2]) + c.name)
                if not un or os.environ.get("VERBOSE"):
                    print(text[c.name])
                    for x, inp in fails[:3]:
                        print("   ", x, "\n      input", inp)
    finally:
        F.shutil.rmtree(d)
    for k, v in sorted(why.items(), key=lambda x: -x[1])[:25]:
        print("   %3d %s" % (v, k))
    print(stat, "values agree", agree, "open", open_, "outside preconditions", tot["crash"])
    return 1 if stat["unsound"] else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
