"""Discharges  facts, qfacts |- goal  by ground instantiation and z3 (cvc5 as second opinion).

Every axiom added here is a definitional axiom of a binder term, a valid lemma instance, or an instance of a given
universally quantified fact; `unsat` of the ground problem therefore proves the goal.  Anything else is "not proved"."""
import itertools, os, subprocess, tempfile, time
import z3
import terms as t_
from terms import *

STATS = {"queries": 0, "z3_time": 0.0, "cvc5": 0, "instances": 0}

_z = {}
_zl = {}
_funs = {}


def zsort(s):
    return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[s]


def toz(t, lin=False):
    """z3 term; with lin, products of atoms become opaque constants (weaker, hence sound for unsat, and decidable)"""
    cache = _zl if lin else _z
    r = cache.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op == "poly":
        tot = []
        for m, c in t.a:
            fs = []
            if lin and len(m) > 1:
                p = z3.Const("prod_%s_%s" % (t.s, "_".join(str(y.id) for y in m)), zsort(t.s))
                k = z3.RealVal(str(c)) if t.s == "R" else z3.IntVal(int(c))
                tot.append(p if c == 1 else k * p)
                continue
            for x in m:
                zx = toz(x, lin)
                if t.s == "R" and x.s == "I":
                    zx = z3.ToReal(zx)
                fs.append(zx)
            k = z3.RealVal(str(c)) if t.s == "R" else z3.IntVal(int(c))
            if not fs:
                tot.append(k)
            else:
                p = fs[0]
                for f in fs[1:]:
                    p = p * f
                tot.append(p if c == 1 else k * p)
        r = z3.Sum(tot) if len(tot) > 1 else (tot[0] if tot else (z3.RealVal(0) if t.s == "R" else z3.IntVal(0)))
    elif op == "app":
        args = [toz(x, lin) for x in t.a[1]]
        key = (t.a[0], tuple(x.s for x in t.a[1]), t.s)
        f = _funs.get(key)
        if f is None:
            f = z3.Function("%s/%d" % (t.a[0], len(_funs)), *([zsort(x) for x in key[1]] + [zsort(t.s)]))
            _funs[key] = f
        r = f(*args)
    elif op == "true":
        r = z3.BoolVal(True)
    elif op == "false":
        r = z3.BoolVal(False)
    elif op == "le":
        r = toz(t.a[0], lin) <= 0
    elif op == "lt":
        r = toz(t.a[0], lin) < 0
    elif op == "eq":
        r = toz(t.a[0], lin) == 0
    elif op == "not":
        r = z3.Not(toz(t.a[0], lin))
    elif op == "and":
        r = z3.And(*[toz(x, lin) for x in t.a])
    elif op == "or":
        r = z3.Or(*[toz(x, lin) for x in t.a])
    elif op == "ite":
        a, b = toz(t.a[1], lin), toz(t.a[2], lin)
        if t.s == "R":
            if t.a[1].s == "I":
                a = z3.ToReal(a)
            if t.a[2].s == "I":
                b = z3.ToReal(b)
        r = z3.If(toz(t.a[0], lin), a, b)
    elif op == "var":
        r = z3.Const(t.a[0], zsort(t.s))
    else:   # binder, inv, floor: opaque constants, pinned by axioms
        r = z3.Const("%s#%d" % (op, t.id), zsort(t.s))
    cache[t.id] = r
    return r


def ground(t):
    return not t.fv


class QFact:
    """for all vars (Int): body.  vars are ordinary variable terms private to this fact."""
    __slots__ = ("vars", "body", "pats", "notrig", "terms", "wit")

    def __init__(self, vars, body, notrig=False, terms=None, wit=False):
        self.wit = wit          # also instantiate with the witnesses of existential formulas
        self.vars, self.body = tuple(vars), body
        self.pats = None
        self.notrig = notrig
        self.terms = terms      # explicit terms to instantiate with (besides the integer variables of the problem)

    def __repr__(self):
        return "ALL %s. %r" % (",".join(map(repr, self.vars)), self.body)

    def subst(self, m):
        return QFact(self.vars, subst(self.body, m), self.notrig, self.terms)


def sort_patterns(q):
    """candidate sources per variable: (app name, argument position, rest, sign) meaning arg = sign*var + rest"""
    if q.pats is not None:
        return q.pats
    pats = {v: [] for v in q.vars}
    strides = []
    seen = set()
    for x in atoms_of(q.body).values():
        if x.op == "app" or x.op in ("sum", "nth"):
            args = x.a[1] if x.op == "app" else [x.a[1]]
            name = x.a[0] if x.op == "app" else x.op + "@%d" % x.a[0].id
            if x.fv and not all(True for _ in ()):
                continue
            for pos, a in enumerate(args):
                if a.s != "I":
                    continue
                p = t_._p(a)
                vs = [v for v in q.vars if occurs(v, a)]
                if len(vs) == 1 and (vs[0],) in p and abs(p[(vs[0],)]) == 1:
                    v = vs[0]
                    rest = {m: c for m, c in p.items() if m != (v,)}
                    rt = t_._mkpoly(rest, "I")
                    if not occurs(v, rt) and not rt.fv:
                        key = (name, pos, rt.id, int(p[(v,)]), v.id)
                        if key not in seen:
                            seen.add(key)
                            pats[v].append((name, pos, rt, int(p[(v,)])))
                elif len(vs) == 2:
                    # var_i + s*var_j (+ rest)
                    for vi, vj in ((vs[0], vs[1]), (vs[1], vs[0])):
                        if p.get((vi,)) == 1:
                            js = {m: c for m, c in p.items() if vj in m}
                            rest = {m: c for m, c in p.items() if m != (vi,) and vj not in m}
                            s = {}
                            ok = True
                            for m, c in js.items():
                                l = list(m)
                                l.remove(vj)
                                if vj in l or vi in l:
                                    ok = False
                                    break
                                s[tuple(l)] = c
                            if not ok:
                                continue
                            st, rt = t_._mkpoly(s, "I"), t_._mkpoly(rest, "I")
                            if any(occurs(v, rt) for v in q.vars):
                                continue
                            key = (name, pos, vi.id, vj.id, st.id)
                            if key not in seen:
                                seen.add(key)
                                strides.append((name, pos, vi, vj, st, rt))
    full = []
    if len(q.vars) > 1 or True:
        for x in atoms_of(q.body).values():
            if x.op == "app" and not x.fv:
                vs = [v for v in q.vars if any(a.s == "I" and occurs(v, a) for a in x.a[1])]
                if len(vs) == len(q.vars) and matchable(x, q.vars):
                    full.append(x)
    q.pats = (pats, strides, full)
    return q.pats


def coefs(t, v):
    """t = s*v + rest with s, rest free of v, or None"""
    s, rest = {}, {}
    for m, c in t_._p(t).items():
        k = [x for x in m if x is v]
        o = tuple(x for x in m if x is not v)
        if len(k) > 1 or any(occurs(v, x) for x in o):
            return None
        (s if k else rest)[o] = c
    return t_._mkpoly(s, t.s), t_._mkpoly(rest, t.s)


def matchable(x, vars_):
    """can the variables be solved from the arguments of this application, one argument after the other"""
    known = set()
    todo = [a for a in x.a[1] if any(occurs(v, a) for v in vars_)]
    while todo:
        for a in list(todo):
            un = [v for v in vars_ if v not in known and occurs(v, a)]
            if not un:
                todo.remove(a)
                break
            if a.s != "I":
                continue
            if len(un) == 1:
                c = coefs(a, un[0])
                if c and (is_num(c[0]) in (1, -1) or is_num(c[0]) is None):
                    known.add(un[0])
                    todo.remove(a)
                    break
            elif len(un) == 2:
                ok = False
                for i, j in ((un[0], un[1]), (un[1], un[0])):
                    c = coefs(a, i)
                    if c and is_num(c[0]) == 1:
                        d = coefs(c[1], j)
                        if d and is_num(d[0]) is None and not occurs(i, d[0]):
                            ok = True
                if ok:
                    known.update(un)
                    todo.remove(a)
                    break
        else:
            return False
    return len(known) == len(vars_)


def matches(x, vars_, args):
    """bindings of the variables that make application x equal to one with these arguments (up to arithmetic)"""
    m = {}
    todo = [(a, b) for a, b in zip(x.a[1], args) if any(occurs(v, a) for v in vars_)]
    while todo:
        for a, b in list(todo):
            un = [v for v in vars_ if v not in m and occurs(v, a)]
            if not un:
                todo.remove((a, b))
                break
            if a.s != "I":
                continue
            aa = subst(a, m) if m else a
            if len(un) == 1:
                c = coefs(aa, un[0])
                if c and is_num(c[0]) in (1, -1):
                    v = sub(b, c[1])
                    m[un[0]] = v if is_num(c[0]) == 1 else neg(v)
                    todo.remove((a, b))
                    break
                if c and is_num(c[0]) is None:
                    pd = polydiv(sub(b, c[1]), c[0])
                    m[un[0]] = pd[0] if pd else num(0)
                    todo.remove((a, b))
                    break
            elif len(un) == 2:
                hit = False
                for i, j in ((un[0], un[1]), (un[1], un[0])):
                    c = coefs(aa, i)
                    if c and is_num(c[0]) == 1:
                        d = coefs(c[1], j)
                        if d and is_num(d[0]) is None and not occurs(i, d[0]):
                            rest = sub(b, d[1])
                            pd = polydiv(rest, d[0])
                            if pd:
                                m[j], m[i] = pd
                            else:
                                m[j], m[i] = num(0), rest
                            hit = True
                            break
                if hit:
                    todo.remove((a, b))
                    break
        else:
            return None
    return m


def polydiv(x, s):
    """(q, r) with x = s*q + r, by polynomial division on a leading monomial of s; None if s does not divide anything"""
    sp = t_._p(s)
    cands = sorted([m for m in sp if m], key=lambda m: (-len(m), tuple(-y.id for y in m)))
    for lead in cands:
        lc = sp[lead]
        q, r = num(0), x
        for _ in range(30):
            hit = None
            for m, c in t_._p(r).items():
                l = list(m)
                ok = True
                for y in lead:
                    if y in l:
                        l.remove(y)
                    else:
                        ok = False
                        break
                if ok and (Fraction(c) / lc).denominator == 1:
                    hit = t_._mkpoly({tuple(l): Fraction(c) / lc}, "I")
                    break
            if hit is None:
                break
            q, r = add(q, hit), sub(r, mul(hit, s))
        if is_num(q) != 0:
            return q, r
    return None


class Problem:
    def __init__(self, facts, qfacts, max_inst=2500, rounds=4):
        self.asserts = []
        self.seen_assert = set()
        self.q = []
        self.seen_terms = {}
        self.apps = {}       # name -> list of arg tuples
        self.sums = []
        self.ints = {}       # interesting integer terms
        self.inst_done = set()
        self.max_inst, self.rounds = max_inst, rounds
        self.n_inst = 0
        self.qall = list(qfacts)
        self.nonneg_done = set()
        self.pairs_done = set()
        self.mono = {}
        for f in facts:
            self.add(f)

    def add(self, f):
        if f is TRUE or f.id in self.seen_assert:
            return
        if f.op == "and":
            for x in f.a:
                self.add(x)
            return
        self.seen_assert.add(f.id)
        self.asserts.append(f)
        self.scan(f)

    def interesting(self, t):
        if t.s == "I" and ground(t):
            self.ints.setdefault(t.id, t)

    def scan(self, f):
        st = [f]
        while st:
            x = st.pop()
            if x.id in self.seen_terms:
                continue
            self.seen_terms[x.id] = x
            if ground(x):
                self.axioms(x)
            if x.op in BIND:
                # bodies contain bound variables; only ground parts matter
                st.extend(c for c in children(x))
            else:
                st.extend(children(x))

    def axioms(self, x):
        op = x.op
        if x.s in "IR" and x.id in NONNEG or (op == "app" and x.a[0] in NN_APPS):
            self.add(mk("le", (neg(x),), "B") if x.s == "I" else le0(neg(x)))
        if op == "app":
            name = x.a[0]
            if all(ground(y) for y in x.a[1]):
                self.apps.setdefault(name, {})[x.id] = x.a[1]
                for y in x.a[1]:
                    self.interesting(y)
            if name == "idiv":
                a, s = x.a[1]
                sq = mul(s, x)
                pos = mk_lt0(s)
                self.add(or_(not_(pos), and_(le(sq, a), lt(a, add(sq, s)))))
                self.add(or_(lt(a, num(0)), le(s, a), eq(x, num(0))))
                d = polydiv(a, s)
                if d:
                    q, r = d
                    self.add(or_(not_(and_(pos, le(num(0), r), lt(r, s))), eq(x, q)))
                self.interesting(x)
            elif name == "exp":
                z = x.a[1][0]
                self.add(lt(rnum(0), x))
                self.add(or_(lt(rnum(0), z), le(x, rnum(1))))
                self.add(or_(ne(z, rnum(0)), eq(x, rnum(1))))
        elif op == "sum":
            b, n, k = x.a
            self.sums.append(x)
            self.apps.setdefault("sum@%d" % b.id, {})[x.id] = (n,)
            self.add(or_(lt(num(0), n), eq(x, num(0, x.s))))
            self.interesting(n)
            c = t_._p(n).get((), 0)
            if 1 <= c <= 12:        # the last few elements
                n1 = sub(n, num(1))
                prev = mk("sum", (b, n1, k), x.s)
                self.add(or_(lt(n, num(1)), eq(x, add(prev, body_at(x, n1)))))
            if x.s == "I" and nonneg(b):
                u = var("$u%d" % x.id, "I")
                self.add(mk0(neg(x)))
                self.add(or_(eq(x, num(0)), and_(le(num(0), u), lt(u, n), lt(num(0), body_at(x, u)))))
                v = fresh("$q", "I")
                self.q.append(QFact((v,), or_(lt(v, num(0)), le(n, v), le(body_at(x, v), x))))
                self.interesting(u)
            if x.s == "I":
                cnt = as_count(x)
                if cnt:
                    self.add(le0(neg(x)) if not nonneg(x) else mk("le", (neg(x),), "B"))
                    self.add(or_(lt(n, num(0)), le(x, n)))
                    # equal to n unless some element is not counted; zero unless some is
                    w, u = var("$w%d" % x.id, "I"), var("$u%d" % x.id, "I")
                    self.add(or_(lt(n, num(0)), eq(x, n), and_(le(num(0), w), lt(w, n), eq(body_at(x, w), num(0)))))
                    self.add(or_(eq(x, num(0)), and_(le(num(0), u), lt(u, n), eq(body_at(x, u), num(1)))))
                    v = fresh("$q", "I")
                    self.q.append(QFact((v,), or_(lt(v, num(0)), le(n, v), eq(body_at(x, v), num(0)), le(num(1), x))))
                    self.interesting(w)
                    self.interesting(u)
        elif op == "exists":
            b, n, k = x.a
            w = var("$w%d" % x.id, "I")
            self.add(or_(not_(x), and_(le(num(0), w), lt(w, n), body_at(x, w))))
            v = fresh("$q", "I")
            self.q.append(QFact((v,), or_(x, lt(v, num(0)), le(n, v), not_(body_at(x, v))), wit=True))
            self.interesting(w)
            self.interesting(n)
            self.interesting(sub(n, num(1)))
        elif op == "first":
            b, n, k = x.a
            self.add(mk("le", (neg(x),), "B"))
            self.add(or_(le(x, n), and_(lt(n, num(0)), eq(x, num(0)))))
            self.add(or_(le(n, x), body_at(x, x)))
            v = fresh("$q", "I")
            self.q.append(QFact((v,), or_(lt(v, num(0)), le(x, v), not_(body_at(x, v)))))
            self.interesting(x)
            self.interesting(sub(x, num(1)))
            self.interesting(n)
        elif op == "least":
            b, k = x.a
            self.add(mk("le", (neg(x),), "B"))
            self.add(imp(least_guard(x), body_at(x, x)))
            v = fresh("$q", "I")
            self.q.append(QFact((v,), or_(lt(v, num(0)), le(x, v), not_(body_at(x, v)))))
            self.interesting(x)
            self.interesting(sub(x, num(1)))
            self.interesting(num(0))
        elif op == "minf":
            f, val, init, n, k = x.a
            self.add(le(x, init))
            w = var("$w%d" % x.id, "I")
            self.add(or_(eq(x, init), and_(le(num(0), w), lt(w, n), body_at(x, w, 0), eq(x, body_at(x, w, 1)))))
            v = fresh("$q", "I")
            self.q.append(QFact((v,), or_(lt(v, num(0)), le(n, v), not_(body_at(x, v, 0)), le(x, body_at(x, v, 1)))))
            self.interesting(w)
        elif op == "nth":
            self.apps.setdefault("nth@%d" % x.a[0].id, {})[x.id] = (x.a[1],)
            self.interesting(x)
            self.interesting(x.a[1])
            self.add(mk("le", (neg(x),), "B"))
        elif op == "inv":
            y = x.a[0]
            self.add(or_(eq(y, rnum(0)), eq(mul(y, x), rnum(1))))
            self.add(or_(not_(lt(rnum(0), y)), lt(rnum(0), x)))
            self.add(or_(not_(lt(y, rnum(0))), lt(x, rnum(0))))
        elif op == "floor":
            self.add(and_(le(toR(x), x.a[0]), lt(x.a[0], add(toR(x), rnum(1)))))
        elif op == "var":
            if x.s == "I" and not x.a[0].startswith("$b"):
                self.interesting(x)

    def pair_axioms(self):
        # extensionality of sums
        ss = self.sums
        new = []
        for i in range(len(ss)):
            for j in range(i):
                A, Bt = ss[i], ss[j]
                if A.s != Bt.s or A is Bt:
                    continue
                key = (A.id, Bt.id)
                if key in self.pairs_done or len(self.pairs_done) > 60:
                    continue
                self.pairs_done.add(key)
                w = var("$e%d_%d" % (Bt.id, A.id), "I")
                if A.a[0] is Bt.a[0]:
                    d = is_num(sub(A.a[1], Bt.a[1]))
                    if d is not None and d != 0:
                        continue
                    new.append(or_(ne(A.a[1], Bt.a[1]), eq(A, Bt)))
                else:
                    new.append(or_(ne(A.a[1], Bt.a[1]), eq(A, Bt),
                                   and_(le(num(0), w), lt(w, A.a[1]), ne(body_at(A, w), body_at(Bt, w)))))
        # a sum of equal terms is a product
        cst = [x for x in ss if x.s == "I" and as_count(x) is None]
        if cst:
            monos = {}
            for f in list(self.seen_terms.values()):
                if f.op == "poly" and ground(f) and f.s == "I":
                    for m, c in f.a:
                        if len(m) == 2:
                            monos[tuple(y.id for y in m)] = m
            for x in cst:
                n = x.a[1]
                cand = {}
                for m in monos.values():
                    for p_, q_ in ((m[0], m[1]), (m[1], m[0])):
                        if p_ is n:
                            cand[q_.id] = q_
                for y in self.ints.values():
                    if y.op in ("var", "app") and not y.a[0].startswith(("$w", "$u", "$e")) and y is not n:
                        cand[y.id] = y
                for y in list(cand.values())[:6]:
                    key = ("const", x.id, y.id)
                    if key in self.pairs_done:
                        continue
                    self.pairs_done.add(key)
                    w = var("$w%d_%d" % (x.id, y.id), "I")
                    new.append(or_(lt(n, num(0)), eq(x, mul(n, y)), and_(le(num(0), w), lt(w, n), ne(body_at(x, w), y))))
        # enumeration terms against counts
        for x in list(self.seen_terms.values()):
            if x.op == "nth" and ground(x):
                for s in ss:
                    c = as_count(s)
                    if not c:
                        continue
                    key = ("nth", x.id, s.id)
                    if key in self.pairs_done:
                        continue
                    cb, ck, n = c
                    if subst(cb, {bvar(ck): bvar(x.a[-1])}) is x.a[0]:
                        self.pairs_done.add(key)
                        j = x.a[1]
                        new.append(or_(lt(j, num(0)), le(s, j), and_(le(num(0), x), lt(x, n), body_at(x, x))))
                        i_ = fresh("$i", "I")
                        cn = count(i_, subst(cb, {bvar(ck): i_}), x)
                        new.append(or_(lt(j, num(0)), le(s, j), eq(cn, j)))
                        new.append(or_(ne(s, j), lt(n, num(0)), not_(body_at(x, n)), eq(x, n)))
        # enumerations of the same positions
        ns = [x for x in list(self.seen_terms.values()) if x.op == "nth" and ground(x)]
        for i, x in enumerate(ns):
            for y in ns[:i]:
                key = ("nthnth", x.id, y.id)
                if x.a[0] is y.a[0] or key in self.pairs_done or (d_ := is_num(sub(x.a[1], y.a[1]))) is not None and d_ != 0:
                    continue
                self.pairs_done.add(key)
                w = var("$w%d_%d" % (x.id, y.id), "I")
                new.append(or_(ne(x.a[1], y.a[1]), eq(x, y), and_(le(num(0), w), not_(iff(body_at(x, w), body_at(y, w))))))
        for f in new:
            self.add(f)
        return bool(new)

    def instantiate(self):
        n0 = self.n_inst
        qs = self.qall + self.q
        for q in qs:
            n1 = self.n_inst
            if n1 > n0 and os.environ.get("PROVER_DEBUG") == "2":
                print("       ", n1 - last, repr(lastq)[:150])
            last, lastq = n1, q
            pats, strides, full = sort_patterns(q)
            if full and q.terms is None and not q.notrig:
                for x in full:
                    for args in list(self.apps.get(x.a[0], {}).values()):
                        if len(args) == len(x.a[1]):
                            m = matches(x, q.vars, args)
                            if m and not self.use(q, m):
                                return self.n_inst > n0
                if q.wit:
                    for val in [x for x in self.ints.values() if x.op == "var" and x.a[0].startswith("$w")][:12]:
                        if not self.use(q, {q.vars[0]: val}):
                            return self.n_inst > n0
                continue
            cands = {}
            for v in q.vars:
                c = {}
                for (name, pos, rest, sg) in pats[v]:
                    for args in list(self.apps.get(name, {}).values()):
                        if pos < len(args):
                            val = sub(args[pos], rest)
                            if sg < 0:
                                val = neg(val)
                            c[val.id] = val
                if q.terms is not None:
                    ts = list(q.terms) + [x for x in self.ints.values() if x.op == "var" and not x.a[0].startswith(("$w", "$u", "$e", "N_", "M_"))][:5]
                    for t in ts:
                        for val in (t, sub(t, num(1))):
                            c[val.id] = val
                elif not pats[v] or q.notrig:
                    for k, val in list(self.ints.items())[:60]:
                        c[k] = val
                cands[v] = list(c.values())
            combos = []
            for (name, pos, vi, vj, st, rt) in strides:
                for args in list(self.apps.get(name, {}).values()):
                    if pos < len(args):
                        d = polydiv(sub(args[pos], rt), st)
                        if d:
                            combos.append({vj: d[0], vi: d[1]})
                        elif is_num(st) is None:
                            combos.append({vj: num(0), vi: sub(args[pos], rt)})
            if len(q.vars) == 1:
                for val in cands[q.vars[0]]:
                    combos.append({q.vars[0]: val})
            else:
                if not strides or not combos:
                    ls = [cands[v][:24] for v in q.vars]
                    tot = 1
                    for l in ls:
                        tot *= max(1, len(l))
                    if tot <= 700:
                        for tup in itertools.product(*ls):
                            combos.append(dict(zip(q.vars, tup)))
                else:
                    base = combos
                    combos = []
                    for b in base:
                        miss = [v for v in q.vars if v not in b]
                        for tup in itertools.product(*[cands[v][:24] for v in miss]):
                            combos.append(dict(b, **{}) | dict(zip(miss, tup)))
            for m in combos:
                if not self.use(q, m):
                    return self.n_inst > n0
        return self.n_inst > n0

    def use(self, q, m):
        if any(not ground(x) for x in m.values()):
            return True
        key = (id(q),) + tuple(m[v].id for v in q.vars)
        if key in self.inst_done:
            return True
        self.inst_done.add(key)
        if self.n_inst >= self.max_inst:
            return False
        self.n_inst += 1
        self.add(subst(q.body, m))
        return True

    def product_lemmas(self):
        """monotonicity of products: for monomials s*x and s*y (s one atom, sign known by lemma), relate differences"""
        monos = {}
        for f in list(self.seen_terms.values()):
            if f.op == "poly" and ground(f) and f.s == "I":
                for m, c in f.a:
                    if len(m) == 2 and all(y.s == "I" for y in m):
                        monos[tuple(y.id for y in m)] = m
        ms = list(monos.values())[:14]
        for m in ms:
            a, b = m
            p = mul(a, b)
            for s, x in ((a, b), (b, a)):
                # s>=0 & x>=1 -> s*x >= s ; s>=0 & x>=0 -> s*x>=0 ; x<=0 -> s*x<=0
                z = le(num(0), s)
                self.add(or_(not_(z), lt(x, num(0)), mk0(neg(p))))
                self.add(or_(not_(z), lt(x, num(1)), le(s, p)))
                self.add(or_(not_(z), lt(num(0), x), le(p, num(0))))
        for m1, m2 in itertools.combinations(ms, 2):
            for s in set(m1) & set(m2):
                x = m1[1] if m1[0] is s else m1[0]
                y = m2[1] if m2[0] is s else m2[0]
                if x is y:
                    continue
                p1, p2 = mul(s, x), mul(s, y)
                z = le(num(0), s)
                self.add(or_(not_(z), lt(y, add(x, num(1))), le(add(p1, s), p2)))   # x+1<=y -> sx+s<=sy
                self.add(or_(not_(z), lt(x, add(y, num(1))), le(add(p2, s), p1)))
                self.add(or_(ne(x, y), eq(p1, p2)))

    def saturate(self):
        for r in range(self.rounds):
            ch = self.pair_axioms()
            ch = self.instantiate() or ch
            if not ch:
                break
        self.pair_axioms()
        self.product_lemmas()


def least_guard(x):
    """a condition under which the body of a 'least' term is eventually true: some comparison in it has a slope that makes
    it true in the end (the other conjunct-free comparisons only help)"""
    v = declare_nonneg(fresh("$g", "I"))
    b = body_at(x, v)
    alts = b.a if b.op == "or" else (b,)
    gs = []
    for y in alts:
        if y.op in ("le", "lt"):
            p = t_._p(y.a[0])
            s = {}
            ok = True
            for m, c in p.items():
                k = [z for z in m if z is v]
                rest = tuple(z for z in m if z is not v)
                if any(occurs(v, z) for z in rest) or len(k) > 1:
                    ok = False
                    break
                if k:
                    s[rest] = c
            if ok and s:
                st = t_._mkpoly(s, y.a[0].s)
                gs.append(lt(st, num(0, st.s)))
    return or_(*gs) if gs else FALSE


def mk_lt0(s):
    return lt(num(0), s)


def mk0(p):
    """p <= 0 without syntactic evaluation"""
    c = is_num(p)
    if c is not None:
        return B(c <= 0)
    return mk("le", (p,), "B")


def solve(asserts, timeout, lin=False):
    STATS["queries"] += 1
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for f in asserts:
        s.add(toz(f, lin))
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    return r, s


def cvc5(s, timeout):
    STATS["cvc5"] += 1
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), "--lang=smt2", "-"], input=txt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split("\n")[0]
    except Exception:
        out = "unknown"
    STATS["cvc5_time"] = STATS.get("cvc5_time", 0) + time.time() - t0
    return out


def prove(facts, qfacts, goal, timeout=8, rounds=4, use_cvc5=True, max_inst=2500, split=None):
    """returns (ok, how) with how = 'z3', 'cvc5', 'syntactic' or a description of the failure"""
    if goal is TRUE:
        return True, "syntactic"
    for g in (goal.a if goal.op == "or" else ()):
        # 1 <= v \/ G(v) with v a natural number: G(0)
        if g.op == "le" and g.a[0].op == "poly":
            v = add(num(1), neg(g.a[0]))
            if v.op == "var" and v.id in NONNEG:
                z = {v: num(0)}
                ok, h = prove([subst(f, z) for f in facts], qfacts, subst(goal, z), min(timeout, 4), rounds, use_cvc5, max_inst, split)
                if ok:
                    return ok, h
    if goal.op == "and":
        how = "syntactic"
        for g in goal.a:
            ok, h = prove(facts, qfacts, g, timeout, rounds, use_cvc5, max_inst, split)
            if not ok:
                return False, h
            if h != "syntactic":
                how = h
        return True, how
    if split is None:
        split = 5 if use_cvc5 else 0
        sizes = set()
        for names, hops, sp in ((app_names, 1, 0), (app_names, 2, 0), (fresh_names, 1, 0), (app_names, 2, 4)):
            f2, q2 = relevant(facts, qfacts, goal, names, hops)
            if (len(f2) + len(q2), sp) not in sizes and len(f2) + len(q2) < len(facts) + len(qfacts):
                sizes.add((len(f2) + len(q2), sp))
                ok, h = prove(f2, q2, goal, min(timeout, 4), 3, False, max_inst, sp)
                if ok:
                    return True, h
    # first without instantiation rounds (cheap), then with, then by cases
    last = None
    if split:
        plan = [(1, min(timeout, 2)), (2, min(timeout, 3)), (rounds, min(timeout, 4))]
    else:
        plan = [(1, min(timeout, 3)), (rounds, timeout)]
    for rd, to in plan:
        pr = Problem(facts, qfacts, rounds=rd, max_inst=max_inst)
        pr.add(not_(goal))
        pr.saturate()
        STATS["instances"] += pr.n_inst
        r, s = solve(pr.asserts, timeout, lin=True)
        if r == z3.unsat:
            return True, "z3"
        if os.environ.get("PROVER_DEBUG"):
            print("    [lin %s inst %d asserts %d split %s %.1fs]" % (r, pr.n_inst, len(pr.asserts), split, 0))
        r, s = solve(pr.asserts, to)
        if r == z3.unsat:
            return True, "z3"
    if split:
        c = split_condition(goal, facts, qfacts)
        if c is not None:
            how = "z3"
            for val in (c, not_(c)):
                m = {c: TRUE, not_(c): FALSE} if val is c else {c: FALSE, not_(c): TRUE}
                fs = [subst(f, m) for f in facts] + [val]
                g = subst(goal, m)
                if any(f is FALSE for f in fs):
                    continue
                qs = [subst_q(q, m) for q in qfacts]
                if val.op == "eq":
                    m = solve_eq(val)
                    if m:
                        fs, g, qs = [subst(f, m) for f in fs], subst(g, m), [subst_q(q, m) for q in qs]
                ok, h = prove(fs, qs, g, timeout, rounds, use_cvc5, max_inst, split - 1)
                if not ok:
                    return False, h
            return True, "z3 by cases"
    if use_cvc5:
        if split:
            r, s = solve(pr.asserts, timeout)
            if r == z3.unsat:
                return True, "z3"
        if r == z3.unknown and cvc5(s, timeout) == "unsat":
            return True, "cvc5"
    if r == z3.sat:
        return False, "refuted (candidate model): " + model_text(s)
    return False, "unknown: " + s.reason_unknown()


def fresh_names(f, memo={}):
    r = memo.get(f.id)
    if r is None:
        r = memo[f.id] = frozenset(n for n in names_in(f) if "!" in n and not n.startswith(("n!", "$")))
    return r


def app_names(f, memo={}):
    r = memo.get(f.id)
    if r is None:
        r = memo[f.id] = frozenset(x.a[0] for x in atoms_of(f).values() if x.op == "app" and x.a[0] not in ("exp", "idiv"))
    return r


def relevant(facts, qfacts, goal, names, hops=1):
    """hypotheses about the functions / intermediate values the goal talks about (leaving out hypotheses is sound)"""
    g = set(names(goal))
    def keep(f):
        n = names(f)
        return not n or n & g
    for h in range(hops):
        f2, q2 = [f for f in facts if keep(f)], [q for q in qfacts if keep(q.body)]
        if h + 1 < hops:
            g = g.union(*[names(f) for f in f2], *[names(q.body) for q in q2])
    return f2, q2


def solve_eq(e):
    """an equality as the replacement of an integer variable"""
    p = t_._p(e.a[0])
    for m, c in sorted(p.items(), key=lambda mc: -mc[0][0].id if mc[0] else 0):
        if len(m) == 1 and m[0].op == "var" and m[0].s == "I" and abs(c) == 1 and e.a[0].s == "I":
            r = scale(Fraction(-1) / c, sub(e.a[0], scale(c, m[0])))
            if not occurs(m[0], r):
                return {m[0]: r}
    return None


def subst_q(q, m):
    if any(occurs(v, k) for k in m for v in q.vars):
        return q
    b = subst(q.body, m)
    return q if b is q.body else QFact(q.vars, b, q.notrig, [subst(t, m) for t in q.terms] if q.terms else q.terms)


def split_condition(goal, facts, qfacts):
    """a ground condition to distinguish: of a conditional inside a product (anywhere), or of a conditional in the goal"""
    best = {}

    def put(l, k):
        if l.op == "not":
            l = l.a[0]
        if ground(l) and l is not TRUE and l is not FALSE:
            b = best.setdefault(l.id, [k, 0, l])
            b[1] -= 1
            b[0] = min(b[0], k)
    for f, vs in [(goal, ())] + [(f, ()) for f in facts] + [(q.body, q.vars) for q in qfacts]:
        for x in atoms_of(f).values():
            if x.op == "poly" and x.s == "I":
                for m, _ in x.a:
                    if len(m) > 1:
                        for y in m:
                            if y.op == "ite" and not any(occurs(v, y.a[0]) for v in vs):
                                put(y.a[0], 0)
    if not best:
        for x in atoms_of(goal).values():
            if x.op == "ite" and x.s in "IR":
                c = x.a[0]
                for l in (c.a if c.op in ("and", "or") else (c,)):
                    put(l, 1 if x.s == "I" else 2)
            elif x.op == "eq" and x.a[0].s == "I" and ground(x) and solve_eq(x):
                put(x, 1)
    if not best:
        return None
    return sorted(best.values(), key=lambda b: (b[0], b[1], b[2].id))[0][2]


def model_text(s):
    m = s.model()
    out = []
    for d in m.decls():
        if d.arity() == 0 and not d.name().startswith("$"):
            out.append("%s=%s" % (d.name(), m[d]))
    return ", ".join(sorted(out)[:60])
