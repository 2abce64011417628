"""Lemmas: what the listed properties say beyond single postconditions follows from the contracts.

The formulas are the contracts' own specification functions (contracts.py), so changing a contract changes the lemma."""
import time
import terms as t_
from terms import *
from values import *
from prover import QFact
from cexec import Ob, Ex, State
import contracts as K
import streams
from contracts import Spec, Lags, World, mean_of, median_of, difference, sum_of_squares, STRICT, DBLMAX

W = ("fractional", "fractional_squared", "gaussian")


class Lem:
    """a chain of statements, each proved from the hypotheses and the earlier ones"""
    def __init__(self, name, tags):
        self.name, self.tags = name, tags
        self.facts, self.qfacts, self.obls, self.called = [], [], [], set()

    def var(self, n, s="R"):
        v = var(n, s)
        return declare_nonneg(v) if s == "I" else v

    def have(self, *fs):
        self.facts += fs

    def all(self, vs, f, **k):
        self.qfacts.append(QFact(vs, f, **k))

    def show(self, label, goal, using=None, keep=True):
        """using: the hypotheses needed (leaving out the others is sound)"""
        if isinstance(goal, (list, tuple)):
            for g in goal:
                self.show(label, g, using, keep)
            return
        fs, qs = (list(self.facts), list(self.qfacts)) if using is None else ([f for f in using if isinstance(f, T)], [f for f in using if isinstance(f, QFact)])
        self.obls.append(Ob("lemma", "%s: %s" % (self.name, label), (), goal, fs, qs, "lemma", self.tags))
        if keep:
            self.have(goal)

    def same(self, label, a, b, **k):
        for lab, vs, g in veq_goals(a, b, label) or [(label, (), TRUE)]:
            self.show(lab, g, keep=k.get("keep", not vs))

    def induct(self, label, stmt, n):
        """stmt(0), stmt(n) -> stmt(n + 1) for all n >= 0; gives stmt(n) for the n wanted"""
        m = declare_nonneg(fresh("$n", "I"))
        self.show(label + " (none)", stmt(num(0)), keep=False)
        f = self.facts
        self.facts = f + [stmt(m)]
        self.show(label + " (one more)", stmt(add(m, num(1))), keep=False)
        self.facts = f
        self.have(stmt(n))


class Series(Spec):
    """a data object given by formulas: times T(i), values X(i) of one dataset, length scale"""
    def __init__(self, name, M, T, X, alpha, sel=None):
        self.name, self.M, self.N = name, M, num(1)
        x = X
        self.x = X
        self.mean_ = mean_of(x, M)
        self._T = vec_fn(M, lambda i: D(T(i)), "d")
        self._X = vec_fn(M, x, "d")
        self._ND = vec_fn(M, lambda i: difference(x(i), self.mean_), "d")
        nr = sum_of_squares(M, self._X, vec_fn(num(1), lambda r: self.mean_, "d"))
        self._NR = vec_fn(num(1), nr, "d")
        self.alpha = D(alpha)
        self.selname = sel or name

    def natsel(self, k, i):
        return app("natural_selection." + self.selname, (k, i), "I")

    def fast0(self, k):
        return app("fast_start." + self.selname, (k,), "I")


class Opaque_(Series):
    """a data object known only through its normalised values and normalisation"""
    def __init__(self, tag, M, T, alpha, sel, weightscale=None):
        self.M, self.N, self.selname = M, num(1), sel
        self._T = vec_fn(M, lambda i: D(T(i)), "d")
        self._ND = vec_fn(M, lambda i: D(app("ND" + tag, (i,), "R"), app("ND%s.nan" % tag, (i,), "B")), "d")
        self.nr = D(var("NR" + tag, "R"), var("NR%s.bad" % tag, "B"))
        self._NR = vec_fn(num(1), lambda r: self.nr, "d")
        self.alpha = D(alpha)


def eqD(a, b):
    return [iff(a.bad, b.bad), or_(a.bad, eq(a.v, b.v))]


def sym_series(L, name="", missing=False):
    M = L.var("M", "I")
    L.have(le(num(1), M))
    T = lambda i: app("T", (i,), "R")
    X = lambda i: D(app("X", (i,), "R"), app("X.nan", (i,), "B") if missing else FALSE)
    a = L.var("alpha")
    L.have(lt(rnum(0), a))
    i, j = declare_nonneg(fresh("$i", "I")), declare_nonneg(fresh("$j", "I"))
    L.have(eq(T(num(0)), rnum(0)))
    L.all((i, j), or_(le(j, i), le(M, j), lt(T(i), T(j))))
    return M, T, X, a


# ------------------------------------------------------------------ C10
def weights(src):
    L = Lem("weights", ("C10",))
    _, _, _, a = sym_series(L)
    S = Series("w", num(1), lambda i: rnum(0), lambda i: D(rnum(0)), a)
    d, e = L.var("d"), L.var("e")
    L.have(le(rnum(0), d), le(rnum(0), e))
    # mathematical facts about exp used here: positive and at most 1 at non-positive arguments (prover), strictly monotone
    x1, x2 = [div(neg(mul(v, v)), scale(2, mul(a, a))) for v in (d, e)]
    ex = lambda x: app("exp", (x,), "R")
    L.show("d/a is not negative", and_(le(rnum(0), mul(d, inv(a))), or_(eq(d, rnum(0)), lt(rnum(0), mul(d, inv(a))))))
    L.show("d/a grows with d", or_(lt(e, d), le(mul(d, inv(a)), mul(e, inv(a)))))
    q, p = mul(d, inv(a)), mul(e, inv(a))
    L.show("e/a is not negative", le(rnum(0), p))
    L.show("(d/a)^2 grows with d", or_(lt(e, d), le(mul(q, q), mul(p, p))))
    L.show("(d/a)^2 is not negative", and_(le(rnum(0), mul(q, q)), le(rnum(0), mul(p, p)), or_(eq(d, rnum(0)), lt(rnum(0), mul(q, q)))))
    half = lambda v: scale(Fraction(-1, 2), mul(v, v))
    L.show("exponent", and_(eq(x1, half(q)), eq(x2, half(p))))
    L.have(or_(le(x2, x1) if False else not_(lt(x1, x2)), lt(ex(x1), ex(x2))), or_(not_(lt(x2, x1)), lt(ex(x2), ex(x1))), or_(ne(x1, x2), eq(ex(x1), ex(x2))),
           or_(not_(lt(x1, rnum(0))), lt(ex(x1), rnum(1))))
    for w in W:
        A, B_ = S.weight(w, d), S.weight(w, e)
        L.show("%s: greater than zero" % w, lt(rnum(0), A), keep=False)
        L.show("%s: at most one" % w, le(A, rnum(1)), keep=False)
        L.show("%s: one at zero distance" % w, or_(ne(d, rnum(0)), eq(A, rnum(1))), keep=False)
        L.show("%s: less than one at any other distance" % w, or_(eq(d, rnum(0)), lt(A, rnum(1))), keep=False)
        L.show("%s: never increases with distance" % w, or_(lt(e, d), le(B_, A)), keep=False)
    return L


# ------------------------------------------------------------------ C11
def estimator(src):
    L = Lem("estimator", ("C11",))
    M, T, X, a = sym_series(L)
    S = Series("e", M, T, X, a)
    k = L.var("k")
    nr = S.NR(num(0))
    L.have(ne(nr.v, rnum(0)))
    mean = S.mean_.v
    x = lambda i: X(i).v
    i = fresh("$i", "I")
    L.show("the mean exists", not_(S.mean_.bad))
    L.same("normalisation is the sum of the squared differences from the mean", nr, D(sum_(i, mul(sub(x(i), mean), sub(x(i), mean)), M)))
    for s in ("natural", "fast"):
        sel = lambda i: S.sel(s, k, i)
        for w in W:
            ab = lambda v: ite(le(rnum(0), v), v, neg(v))
            top = sum_(i, mul(mul(S.weight(w, ab(sub(T(sel(i)), add(T(i), k)))), sub(x(i), mean)), sub(x(sel(i)), mean)), S.npairs(s, k))
            v = S.acf_def(s, w, num(0), k)
            L.show("%s, %s: a number" % (s, w), not_(v.bad), keep=False)
            L.show("%s, %s: weighted sum of the products of the mean-subtracted values over the sum of their squares" % (s, w), eq(v.v, div(top, nr.v)), keep=False)
    return L


# ------------------------------------------------------------------ C12
def zero_lag(src):
    L = Lem("zero lag", ("C12",))
    M, T, X, a = sym_series(L)
    S = Series("z", M, T, X, a)
    z = rnum(0)
    i, m = declare_nonneg(fresh("$i", "I")), declare_nonneg(fresh("$m", "I"))
    np = S.np_natural(z)
    L.show("every point is eligible", eq(np, M))
    # contract of natural selection
    e = S.natsel(z, i)
    L.all((i,), or_(le(np, i), and_(le(num(0), e), lt(e, M))))
    L.all((i, m), or_(le(np, i), S.nearest(e, add(T(i), z), m)))
    j = L.var("j", "I")
    goal = lambda j: or_(le(M, j), eq(S.natsel(z, j), j))
    near = S.nearest(S.natsel(z, j), add(T(j), z), j)
    L.show("the selected sample exists", or_(le(M, j), and_(le(num(0), S.natsel(z, j)), lt(S.natsel(z, j), M))))
    L.show("it is at least as near as the point itself", or_(le(M, j), near))
    L.show("the selected sample is the point itself", goal(j), keep=False)
    q = declare_nonneg(fresh("$q", "I"))
    L.all((q,), goal(q))
    nr = S.NR(num(0))
    L.have(lt(rnum(0), nr.v))
    L.show("the mean exists", not_(S.mean_.bad))
    L.show("the normalisation is a number", not_(nr.bad))
    for w in W:
        L.show("weight at zero distance (%s)" % w, eq(S.weight(w, rnum(0)), rnum(1)))
        v = S.acf_def("natural", w, num(0), z)
        p = fresh("$p", "I")
        sl = S.natsel(z, p)
        ab = lambda v: ite(le(rnum(0), v), v, neg(v))
        term = lambda p: mul(mul(S.weight(w, ab(sub(T(S.natsel(z, p)), add(T(p), z)))), S.ND(p, num(0)).v), S.ND(S.natsel(z, p), num(0)).v)
        sq = lambda p: mul(S.ND(p, num(0)).v, S.ND(p, num(0)).v)
        g = L.var("g", "I")
        L.show("each term is the square (%s)" % w, or_(le(M, g), eq(term(g), sq(g))), keep=False, using=[goal(g), eq(S.weight(w, rnum(0)), rnum(1))])
        q2 = declare_nonneg(fresh("$q", "I"))
        L.all((q2,), or_(le(M, q2), eq(term(q2), sq(q2))))
        L.show("the numerator is the normalisation (%s)" % w, eq(sum_(p, term(p), np), nr.v))
        L.show("the correlation is a number (%s)" % w, not_(v.bad), keep=False)
        L.show("the correlation is one (%s)" % w, eq(v.v, rnum(1)), keep=False)
    # the default grid
    L2 = Lem("zero lag", ("C12",))
    M, T, X, a = sym_series(L2)
    res = L2.var("resolution")
    last = T(sub(M, num(1)))
    gap = lambda i: sub(T(add(i, num(1))), T(i))
    L2.have(lt(rnum(0), res))
    L2.show("times are not before the first", le(rnum(0), last))
    # contract of the default resolution
    L2.have(or_(le(sub(M, num(1)), num(0)), le(gap(num(0)), rnum(0)), le(res, gap(num(0)))))
    L2.show("the default resolution does not exceed the time span", or_(eq(M, num(1)), le(res, last)))
    L2.show("one point: a span of zero", or_(ne(M, num(1)), eq(last, rnum(0))))
    G = Lags(neg(last), last, res)
    L2.qfacts += G.lemmas()
    L2.show("the grid reaches zero", lt(G.g(sub(G.z, num(1))), rnum(0)) if False else and_(le(rnum(0), G.g(G.z)), or_(eq(G.z, num(0)), lt(G.g(sub(G.z, num(1))), rnum(0)))))
    L2.show("before the maximum lag", lt(G.z, G.L))
    L2.show("lag zero is in the default grid", and_(lt(G.z, G.L), eq(G.lag(G.z), rnum(0))), keep=False)
    L.obls += L2.obls
    return L


# ------------------------------------------------------------------ C13
def independence(src):
    """two data objects with the same times; dataset r of one is dataset s of the other"""
    L = Lem("independence", ("C13", "C15"))
    M, T, X, a = sym_series(L, missing=True)
    r, s = L.var("r", "I"), L.var("s", "I")
    XA = lambda k: D(app("XA", (k,), "R"), app("XA.nan", (k,), "B"))
    XB = lambda k: D(app("XB", (k,), "R"), app("XB.nan", (k,), "B"))
    A = Series("t", M, T, lambda i: XA(add(i, mul(r, M))), a)
    B_ = Series("t", M, T, lambda i: XB(add(i, mul(s, M))), a)
    i = declare_nonneg(fresh("$i", "I"))
    L.all((i,), or_(le(M, i), and_(iff(A.x(i).bad, B_.x(i).bad), or_(A.x(i).bad, eq(A.x(i).v, B_.x(i).v)))))
    g = L.var("g", "I")
    L.show("same count", eq(count(i, not_(A.x(i).bad), M), count(i, not_(B_.x(i).bad), M)))
    L.same("same mean", A.mean_, B_.mean_)
    for v in eqD(A.ND(g, num(0)), B_.ND(g, num(0))):
        L.show("same normalised values", or_(le(M, g), v), keep=False)
    L.all((i,), or_(le(M, i), and_(*eqD(A.ND(i, num(0)), B_.ND(i, num(0))))))
    L.same("same normalisation", A.NR(num(0)), B_.NR(num(0)))
    # from equal ingredients to equal correlations
    P = Lem("independence", ("C13", "C15"))
    M, T, X, a = sym_series(P)
    A, B_ = Opaque_("A", M, T, a, "t"), Opaque_("B", M, T, a, "t")
    P.all((i,), or_(le(M, i), and_(*eqD(A.ND(i, num(0)), B_.ND(i, num(0))))))
    P.have(*eqD(A.nr, B_.nr))
    same_correlations(P, A, B_, P.var("k"), P.var("k"), M)
    L.obls += P.obls
    return L


def selection_contract(L, S, sname, k, n):
    """existing samples, no more pairs than points"""
    q = declare_nonneg(fresh("$q", "I"))
    L.all((q,), or_(le(n, q), and_(le(num(0), S.sel(sname, k, q)), lt(S.sel(sname, k, q), S.M))))


def same_correlations(L, A, B_, k, k2, M):
    for sname in ("natural", "fast"):
        n = A.npairs(sname, k)
        L.show("%s: same number of pairs" % sname, eq(n, B_.npairs(sname, k2)))
        selection_contract(L, A, sname, k, n)
        L.show("%s: no more pairs than points" % sname, le(n, M))
        for w in W:
            va, vb = A.acf_def(sname, w, num(0), k), B_.acf_def(sname, w, num(0), k2)
            L.show("%s, %s: missing in both" % (sname, w), iff(va.bad, vb.bad))
            L.show("%s, %s: the same correlation" % (sname, w), or_(va.bad, eq(va.v, vb.v)), keep=False)


# ------------------------------------------------------------------ C15
def offset(src):
    L = Lem("offset", ("C15",))
    M, T, X, a = sym_series(L)
    c = L.var("c")
    A = Series("o", M, T, X, a)
    B_ = Series("o", M, T, lambda i: D(add(X(i).v, c)), a)
    i = fresh("$i", "I")
    x = lambda i: X(i).v
    L.induct("sum of shifted values", lambda n: eq(sum_(i, add(x(i), c), n), add(sum_(i, x(i), n), mul(c, toR(n)))), M)
    L.same("the mean moves by the offset", B_.mean_, D(add(A.mean_.v, c), A.mean_.bad))
    g = L.var("g", "I")
    L.show("the same normalised values", eqD(A.ND(g, num(0)), B_.ND(g, num(0))), keep=False)
    L.same("the same normalisation", A.NR(num(0)), B_.NR(num(0)))
    return L                        # equal correlations: lemma independence


def value_scale(src):
    L = Lem("scale", ("C15",))
    M, T, X, a = sym_series(L)
    c = L.var("c")
    L.have(ne(c, rnum(0)))
    A = Series("o", M, T, X, a)
    B_ = Series("o", M, T, lambda i: D(mul(c, X(i).v)), a)
    i = fresh("$i", "I")
    x = lambda i: X(i).v
    L.induct("sum of scaled values", lambda n: eq(sum_(i, mul(c, x(i)), n), mul(c, sum_(i, x(i), n))), M)
    L.same("the mean is scaled", B_.mean_, D(mul(c, A.mean_.v), A.mean_.bad))
    g = L.var("g", "I")
    for v in eqD(B_.ND(g, num(0)), D(mul(c, A.ND(g, num(0)).v), A.ND(g, num(0)).bad)):
        L.show("the normalised values are scaled", v, keep=False)
    # with mu = the mean: sum of (c x - c mu)^2 = c^2 sum of (x - mu)^2
    mu = L.var("mu")
    L.induct("sum of scaled squares", lambda n: eq(sum_(i, mul(sub(mul(c, x(i)), mul(c, mu)), sub(mul(c, x(i)), mul(c, mu))), n),
                                                mul(mul(c, c), sum_(i, mul(sub(x(i), mu), sub(x(i), mu)), n))), M)
    # the correlation
    P = Lem("scale", ("C15",))
    M, T, X, a = sym_series(P)
    P.have(ne(c, rnum(0)))
    A = Opaque_("A", M, T, a, "t")
    B_ = Opaque_("B", M, T, a, "t")
    nd = lambda i: and_(not_(A.ND(i, num(0)).bad), not_(B_.ND(i, num(0)).bad), eq(B_.ND(i, num(0)).v, mul(c, A.ND(i, num(0)).v)))
    j = declare_nonneg(fresh("$j", "I"))
    P.all((j,), or_(le(M, j), nd(j)))
    P.have(not_(A.nr.bad), not_(B_.nr.bad), ne(A.nr.v, rnum(0)), eq(B_.nr.v, mul(mul(c, c), A.nr.v)))
    P.show("the normalisation is not zero", ne(mul(mul(c, c), A.nr.v), rnum(0)))
    k = P.var("k")
    u, v = inv(A.nr.v), inv(B_.nr.v)
    P.show("inverse normalisation", eq(mul(mul(c, c), v), u))
    scaled_correlation(P, A, B_, k, k, M, mul(c, c), u, v)
    L.obls += P.obls
    return L


def scaled_correlation(P, A, B_, k, k2, M, f, u, v):
    """terms that are f times as large over a normalisation that is f times as large"""
    for sname in ("natural", "fast"):
        n = A.npairs(sname, k)
        P.show("%s: same number of pairs" % sname, eq(n, B_.npairs(sname, k2)))
        selection_contract(P, A, sname, k, n)
        P.show("%s: no more pairs than points" % sname, le(n, M))
        for w in W:
            va, vb = A.acf_def(sname, w, num(0), k), B_.acf_def(sname, w, num(0), k2)
            P.show("%s, %s: a number in both" % (sname, w), and_(not_(va.bad), not_(vb.bad)), keep=False)
            i = fresh("$i", "I")
            ab = lambda v: ite(le(rnum(0), v), v, neg(v))

            def term(S, k, i):
                sl = S.sel(sname, k, i)
                return mul(mul(S.weight(w, ab(sub(S.T(sl), add(S.T(i), k)))), S.ND(i, num(0)).v), S.ND(sl, num(0)).v)
            g = P.var("g", "I")
            P.show("%s, %s: each term" % (sname, w), or_(le(n, g), eq(term(B_, k2, g), mul(f, term(A, k, g)))), keep=False)
            ta, tb = (lambda i: app("termA", (i,), "R")), (lambda i: app("termB", (i,), "R"))
            Q = Lem("scale: %s, %s" % (sname, w), P.tags)
            q = declare_nonneg(fresh("$q", "I"))
            nn = declare_nonneg(var("n", "I"))
            Q.all((q,), or_(le(nn, q), eq(tb(q), mul(f, ta(q)))))
            i = fresh("$i", "I")
            Q.induct("sum of the terms", lambda m: or_(lt(nn, m), eq(sum_(i, tb(i), m), mul(f, sum_(i, ta(i), m)))), nn)
            sa, sb = var("sumA", "R"), var("sumB", "R")
            uu, vv = var("u", "R"), var("v", "R")
            Q.show("the same correlation", eq(mul(sb, vv), mul(sa, uu)), using=[eq(sb, mul(f, sa)), eq(mul(f, vv), uu)])
            P.obls += Q.obls


def time_origin(src):
    L = Lem("time origin", ("C15",))
    M = L.var("M", "I")
    L.have(le(num(1), M))
    c = L.var("c")
    t = lambda i: D(app("t", (i,), "R"))
    t2 = lambda i: D(add(t(i).v, c))
    nt = lambda t: lambda i: difference(t(i), t(num(0)))
    g = L.var("g", "I")
    L.same("the same normalised times", nt(t)(g), nt(t2)(g), keep=False)
    L.same("the same median", median_of(nt(t), M), median_of(nt(t2), M), keep=False)
    return L                        # everything a correlator uses is a function of the normalised times and the values


def time_scale(src):
    L = Lem("time scale", ("C15",))
    M, T, X, a = sym_series(L)
    c, k = L.var("c"), L.var("k")
    L.have(lt(rnum(0), c))
    A = Opaque_("", M, T, a, "A")
    B_ = Opaque_("", M, lambda i: mul(c, T(i)), mul(c, a), "B")
    k2 = mul(c, k)
    # eligibility
    i, j, m = [declare_nonneg(fresh("$" + x, "I")) for x in "ijm"]
    for s in ("natural", "fast"):
        na, nb = (A.np_natural(k), B_.np_natural(k2)) if s == "natural" else (A.np_fast(k), B_.np_fast(k2))
        cmp = lt if s == "natural" else le
        g = L.var("g", "I")
        f = lambda g: iff(cmp(T(sub(M, num(1))), add(T(g), k)), cmp(mul(c, T(sub(M, num(1)))), add(mul(c, T(g)), k2)))
        L.show("%s: a point is eligible in both or neither" % s, f(g), keep=False)
        L.all((j,), f(j))
        L.show("%s: the same eligible points" % s, eq(na, nb))
    # nearest samples: both satisfy the contract of the selection
    P = Lem("time scale", ("C15",))
    M, T, X, a = sym_series(P)
    P.have(lt(rnum(0), c))
    sa, sb, x = P.var("selA", "I"), P.var("selB", "I"), P.var("x")
    P.have(lt(sa, M), lt(sb, M))
    P.all((m,), A.nearest(sa, x, m))
    P.all((m,), B_.nearest(sb, mul(c, x), m))
    ab = lambda v: ite(le(rnum(0), v), v, neg(v))
    da, db = ab(sub(T(sa), x)), ab(sub(T(sb), x))
    P.show("distances scale (first)", eq(ab(sub(mul(c, T(sa)), mul(c, x))), mul(c, da)), using=[lt(rnum(0), c)])
    P.show("distances scale (second)", eq(ab(sub(mul(c, T(sb)), mul(c, x))), mul(c, db)), using=[lt(rnum(0), c)])
    P.have(A.nearest(sa, x, sb), B_.nearest(sb, mul(c, x), sa))
    P.show("one is as near as the other", [le(da, db), le(mul(c, db), mul(c, da))])
    P.show("the same distance", eq(da, db))
    P.show("the same sample", eq(sa, sb))
    L.obls += P.obls
    # weights
    Q = Lem("time scale", ("C15",))
    al, d = Q.var("alpha"), Q.var("d")
    Q.have(lt(rnum(0), c), lt(rnum(0), al), le(rnum(0), d))
    S1, S2 = Series("w", num(1), lambda i: rnum(0), lambda i: D(rnum(0)), al), Series("w", num(1), lambda i: rnum(0), lambda i: D(rnum(0)), mul(c, al))
    q = mul(d, inv(al))
    Q.show("the scaled length is positive", lt(rnum(0), mul(c, al)))
    Q.show("relative distance", eq(mul(mul(c, d), inv(mul(c, al))), q))
    Q.show("exponent", eq(div(neg(mul(mul(c, d), mul(c, d))), scale(2, mul(mul(c, al), mul(c, al)))), div(neg(mul(d, d)), scale(2, mul(al, al)))))
    for w in W:
        Q.show("%s: the same weight" % w, eq(S2.weight(w, mul(c, d)), S1.weight(w, d)), keep=False)
    L.obls += Q.obls
    # the correlation
    V = Lem("time scale", ("C15",))
    M, T, X, a = sym_series(V)
    V.have(lt(rnum(0), c))
    A = Opaque_("", M, T, a, "A")
    B_ = Opaque_("", M, lambda i: mul(c, T(i)), mul(c, a), "B")
    for s in ("natural", "fast"):
        n = A.npairs(s, k)
        g = V.var("g", "I")
        sa, sb = A.sel(s, k, g), B_.sel(s, k2, g)
        d1 = ab(sub(T(sa), add(T(g), k)))
        d2 = ab(sub(mul(c, T(sa)), add(mul(c, T(g)), k2)))
        V.show("%s: distances scale" % s, eq(d2, mul(c, d1)), using=[lt(rnum(0), c)], keep=False)
        for w in W:
            dd, ee = V.var("dd"), V.var("ee")
            V.show("%s: equal distances have equal weights" % w, eq(B_.weight(w, dd), A.weight(w, ee)),
                   using=[lt(rnum(0), c), lt(rnum(0), a), le(rnum(0), ee), eq(dd, mul(c, ee)), eq(B_.weight(w, mul(c, ee)), A.weight(w, ee))], keep=False)
            x1 = mul(mul(A.weight(w, d1), A.ND(g, num(0)).v), A.ND(sa, num(0)).v)
            x2 = mul(mul(B_.weight(w, d2), A.ND(g, num(0)).v), A.ND(sb, num(0)).v)
            V.show("%s, %s: the same term" % (s, w), eq(x1, x2), using=[eq(sa, sb), eq(B_.weight(w, d2), A.weight(w, d1))], keep=False)
    L.obls += V.obls
    # lags
    R = Lem("time scale", ("C15",))
    lo, hi, res = [R.var(x) for x in ("min_lag", "max_lag", "resolution")]
    R.have(lt(rnum(0), c), lt(rnum(0), res))
    G1, G2 = Lags(lo, hi, res), Lags(mul(c, lo), mul(c, hi), mul(c, res))
    R.qfacts += G1.lemmas()
    R.show("the scaled resolution is positive", lt(rnum(0), mul(c, res)))
    R.qfacts += G2.lemmas()
    g = R.var("g", "I")
    f1 = lambda g: iff(le(rnum(0), G1.g(g)), le(rnum(0), G2.g(g)))
    f2 = lambda g: iff(lt(hi, G1.g(g)), lt(mul(c, hi), G2.g(g)))
    f3 = lambda g: iff(eq(rnum(0), G1.g(g)), eq(rnum(0), G2.g(g)))
    sc = lambda g: eq(G2.g(g), mul(c, G1.g(g)))
    for f in (sc, f1, f2, f3):
        R.show("grid points scale", f(g), keep=False, using=[lt(rnum(0), c)])
        R.all((j,), f(j), terms=[G1.z, G2.z, G1.CNT, G2.CNT, g])
    R.show("zero is crossed at the same place", eq(G1.z, G2.z))
    R.show("the same last grid point", eq(G1.CNT, G2.CNT))
    R.show("on the grid in both or neither", iff(G1.on_grid(), G2.on_grid()))
    R.show("the same number of lags", eq(G1.L, G2.L))
    R.show("each lag scales", eq(G2.lag(g), mul(c, G1.lag(g))), keep=False)
    L.obls += R.obls
    # default settings
    U = Lem("time scale", ("C15",))
    M, T, X, a = sym_series(U)
    U.have(lt(rnum(0), c))
    ra, rb = U.var("resolutionA"), U.var("resolutionB")
    ga = lambda i: sub(T(add(i, num(1))), T(i))
    U.have(lt(num(1), M))
    ia, ib = U.var("ia", "I"), U.var("ib", "I")
    # contract of the default resolution: one of the gaps, and no larger than any
    U.have(lt(ia, sub(M, num(1))), eq(ra, ga(ia)), lt(ib, sub(M, num(1))), eq(rb, mul(c, ga(ib))))
    U.all((i,), or_(le(sub(M, num(1)), i), le(ra, ga(i))))
    U.all((i,), or_(le(sub(M, num(1)), i), le(rb, mul(c, ga(i)))))
    U.have(le(ra, ga(ib)), le(rb, mul(c, ga(ia))))
    U.show("the default resolution scales", eq(rb, mul(c, ra)), using=[lt(rnum(0), c), le(ra, ga(ib)), le(rb, mul(c, ga(ia))), eq(ra, ga(ia)), eq(rb, mul(c, ga(ib)))])
    nt = lambda i: D(T(i))
    nt2 = lambda i: D(mul(c, T(i)))
    U.same("the default length scale scales", median_of(nt2, M), D(mul(c, median_of(nt, M).v), median_of(nt, M).bad))
    L.obls += U.obls
    return L


# ------------------------------------------------------------------ states
BYNAME = {c.name: c for c in K.CONTRACTS.values()}


class Run:
    """contracts applied one after the other to a symbolic state"""
    def __init__(self, src, name, tags):
        self.ex = Ex(src.prog, dict(K.CONTRACTS))
        self.ex.where, self.name, self.tags = "lemma", name, tags
        self.ex.cur_tags = tags
        self.called = self.ex.called
        self.st = State()

    @property
    def obls(self):
        return self.ex.obls

    def do(self, name, this, args=(), st=None):
        c = BYNAME[name] if isinstance(name, str) else name
        r = c.apply(self.ex, st or self.st, this, list(args))
        self.ex.pend = []
        return r

    def show(self, label, goal, st=None, kind="lemma"):
        self.ex.oblige(kind, "%s: %s" % (self.name, label), st or self.st, goal, self.tags)

    def same(self, label, a, b):
        for lab, vs, g in veq_goals(a, b, label) or [(label, (), TRUE)]:
            self.show(lab, g)


def valid_data(src, nested, errors):
    """a data object built from finite times in order is what the other contracts take for granted (World)"""
    file = nested == "filename"
    nm = "DataStructure(filename)" if file else "DataStructure(%s)" % ("lists" if nested else "list") + ("+errors" if errors else "")
    R = Run(src, "valid " + nm, ("C14", "C04", "C01") + (("C05",) if file else ()))
    ex, st = R.ex, R.st
    if file:
        env = K._file_setup(ex, st)
        rows = env["hint"].r
        t = vec_fn(rows.R, lambda q: D(rows.field(q, 0)), "d")
        i = declare_nonneg(fresh("$i", "I"))
        ex.qfact(None, (i,), or_(le(rows.NL, i), and_(le(rows.nf(i), num(3)), le(streams.fields(streams.line(rows.name, i)), num(3)))))
    else:
        env = K._ds_setup(nested, errors)(ex, st)
        t = ex.read(st, env["args"][0].lv)
    i, j = declare_nonneg(fresh("$i", "I")), declare_nonneg(fresh("$j", "I"))
    at = lambda i: asD(t.get(i)).v
    ex.qfact(None, (i, j), or_(lt(j, i), le(t.len, j), le(at(i), at(j))))
    ex.qfact(None, (i, j), or_(not_(STRICT), le(j, i), le(t.len, j), lt(at(i), at(j))))
    R.do(nm, env["this"], env["args"])
    g = lambda f: ex.read(st, env["this"].f(f))
    N, M = [toI(x.v) if isinstance(x, D) else x for x in (g("N_datasets"), g("M_datapoints"))]
    R.show("at least one dataset and one point", and_(le(num(1), N), le(num(1), M)))
    T = g("norm_t")
    R.show("a time per point", and_(eq(g("t").len, M), eq(T.len, M)))
    R.show("a value per dataset and point", and_(eq(g("_data").len, mul(N, M)), eq(g("norm_data").len, mul(N, M)), eq(g("data_mean").len, N)))
    k, r = declare_nonneg(fresh("$k", "I")), declare_nonneg(fresh("$r", "I"))
    at = add(k, mul(r, M))
    x, m, d = asD(g("_data").get(at)), asD(g("data_mean").get(r)), asD(g("norm_data").get(at))
    out = or_(le(M, k), le(N, r))
    R.show("a normalised value is missing where the value or the mean is", or_(out, iff(d.bad, or_(x.bad, m.bad))))
    R.show("the mean of a dataset with a value is a number", or_(out, x.bad, not_(m.bad)))
    R.show("normalised values are the values less the mean", or_(out, d.bad, eq(d.v, sub(x.v, m.v))))
    R.show("an error per value or none", or_(eq(g("err").len, num(0)), eq(g("err").len, mul(N, M))))
    a, b = declare_nonneg(fresh("$p", "I")), declare_nonneg(fresh("$q", "I"))
    R.show("the first time is zero", eq(asD(T.get(num(0))).v, rnum(0)))
    R.show("times are numbers", or_(le(M, a), not_(asD(T.get(a)).bad)))
    R.show("times do not decrease", or_(lt(b, a), le(M, b), le(asD(T.get(a)).v, asD(T.get(b)).v)))
    R.show("distinct times increase", or_(not_(STRICT), le(b, a), le(M, b), lt(asD(T.get(a)).v, asD(T.get(b)).v)))
    R.show("the median time is a number", not_(asD(g("t_median")).bad))
    t_ = g("t")
    R.show("times are counted from the first one", or_(le(M, a), asD(t_.get(a)).bad, asD(t_.get(num(0))).bad, eq(asD(T.get(a)).v, sub(asD(t_.get(a)).v, asD(t_.get(num(0))).v))))
    R.show("the largest time is the last one", and_(iff(asD(g("t_max")).bad, asD(t_.get(sub(M, num(1)))).bad), or_(asD(g("t_max")).bad, eq(asD(g("t_max")).v, asD(t_.get(sub(M, num(1)))).v))))
    R.show("the median time is that of the times", eq(asD(g("t_median")).v, K.median_of(lambda i: asD(T.get(i)), M).v))
    return R


def file_lists(src):
    """the data object read from a file is the one built from its rows as lists"""
    out = None
    for errors in (False, True):
        R = Run(src, "file and lists" + (" with errors" if errors else ""), ("C05",))
        ex, st = R.ex, R.st
        env = K._file_setup(ex, st)
        rows = env["hint"].r
        i = declare_nonneg(fresh("$i", "I"))
        ex.qfact(None, (i,), or_(le(rows.NL, i), and_(le(rows.nf(i), num(3)), le(streams.fields(streams.line(rows.name, i)), num(3)))))
        third = rows.first3(rows.NL)
        ex.fact(None, third if errors else not_(third))
        for f in (streams.opened(rows.name), lt(num(0), rows.R)):
            st.assume(f)
        b = LV(("g", "lists"))
        st.mem[b.key] = ex.default_of(("o", "DataStructure"))
        args = []
        for nm, col in (("t", lambda q: D(rows.field(q, 0))), ("v", lambda q: D(rows.field(q, 1))), ("e", rows.error))[:3 if errors else 2]:
            a = LV(("g", nm))
            st.mem[a.key] = vec_fn(rows.R, col, "d")
            args.append(Ptr(a))
        R.do("DataStructure(filename)", env["this"], env["args"])
        R.do("DataStructure(list)" + ("+errors" if errors else ""), b, args)
        for f in ("N_datasets", "M_datapoints", "t", "_data", "err", "data_mean", "norm_t", "norm_data", "t_median", "t_max"):
            x, y = [ex.read(st, o.f(f)) for o in (env["this"], b)]
            R.same("the same " + f, x, y)
        out = R if out is None else R2_merge(out, R)
    return out


def valid_correlator(src):
    """a new correlator, and one after any call that changes its table, is what the other contracts take for granted"""
    R = Run(src, "valid correlator", ("C14", "C13"))
    ex, st = R.ex, R.st
    w = World(ex, st)
    lv = LV(("g", "corr"))
    st.mem[lv.key] = ex.default_of(("o", "Correlator"))
    R.do("Correlator", lv, [Ptr(w.ds)])

    def check(label, st, settings=True):
        g = lambda *f: ex.read(st, path(lv, f))
        nls, ts, co = g("num_lag_steps"), g("correlation_data", "_timeseries"), g("correlation_data", "_correlations")
        R.show(label + ": a column per lag and a row per dataset", and_(le(num(0), nls), eq(ts.len, nls), eq(co.len, mul(w.N, nls))), st)
        R.show(label + ": a normalisation per dataset", eq(g("N").len, w.N), st)
        R.show(label + ": numbers of datasets and points", and_(eq(asD(g("N_datasets")).v, toR(w.N)), eq(asD(g("M_datapoints")).v, toR(w.M))), st)
        for p in ("max_lag", "min_lag", "alpha") if settings else ():
            R.show(label + ": %s is a number" % p, not_(asD(g(p)).bad), st)
        R.show(label + ": a positive resolution", and_(not_(asD(g("lag_resolution")).bad), lt(rnum(0), asD(g("lag_resolution")).v)), st)
    check("new", st)
    for name in ("addCorrelationData", "cleanCorrelationData", "clearCorrelation", "calculateStandardCorrelation"):
        R2 = Run(src, "valid correlator", R.tags)
        ex, st = R2.ex, R2.st
        w = World(ex, st)
        lv = w.corr(ex, st)
        nls = w.nls
        R = R2_merge(R, R2)
        g = lambda f: asD(ex.read(st, lv.f(f)))
        ex.fact(None, lt(rnum(0), g("lag_resolution").v))
        ex.fact(None, lt(rnum(0), g("alpha").v))
        args = []
        if name == "addCorrelationData":
            it = w.iterator(ex, st)
            ex.fact(None, eq(ex.read(st, it.f("correlation")).len, w.N))
            args = [Ptr(it), declare_nonneg(var("timestep", "I"))]
        if name == "cleanCorrelationData":
            args = [declare_nonneg(var("new_size", "I"))]
        R.do(name, lv, args)
        check("after " + name, st)
    return R


def R2_merge(a, b):
    b.ex.obls += a.ex.obls
    b.ex.called |= a.ex.called
    return b


def path(lv, fs):
    for f in fs:
        lv = lv.f(f)
    return lv


def _two(src, name, tags):
    R = Run(src, name, tags)
    ex, st = R.ex, R.st
    w = World(ex, st)
    lv = w.corr(ex, st)
    g = lambda f: asD(ex.read(st, lv.f(f)))
    ex.fact(None, lt(rnum(0), g("lag_resolution").v))
    ex.fact(None, lt(rnum(0), g("alpha").v))
    # a second correlator on the same data with the same settings and another (valid) table
    lv2 = LV(("g", "corr2"))
    st.mem[lv2.key] = st.mem[lv.key]
    n2 = declare_nonneg(var("num_lag_steps2", "I"))
    ex.write(st, lv2.f("num_lag_steps"), n2)
    ex.write(st, lv2.f("correlation_data").f("_timeseries"), vec_fn(n2, lambda k: D(app("lag2", (k,), "R"), app("lag2.nan", (k,), "B")), "d"))
    ex.write(st, lv2.f("correlation_data").f("_correlations"), vec_fn(mul(w.N, n2), lambda k: D(app("corr2", (k,), "R"), app("corr2.nan", (k,), "B")), "d"))
    return R, w, lv, lv2


def results(R, lv):
    return R.do("lag_timeseries", lv), R.do("correlations", lv)


def repeatable(src):
    """the result of a computation does not depend on what the table held before"""
    import pycontracts as P
    out = None
    for c in [BYNAME["calculateStandardCorrelation"]] + [P.FIND[x] for x in P.COMBOS]:
        R, w, a, b = _two(src, "repeatable (%s)" % c.name, ("C16",))
        R.do(c, a)
        first_ = results(R, a)
        R.do(c, b)
        second = results(R, b)
        R.same("the same lags", first_[0], second[0])
        R.same("the same correlations", first_[1], second[1])
        R.do(c, a)
        again = results(R, a)
        R.same("the same lags when computed again", first_[0], again[0])
        R.same("the same correlations when computed again", first_[1], again[1])
        R.do("clearCorrelation", a)
        R.do(c, a)
        third = results(R, a)
        R.same("the same correlations after clearing", first_[1], third[1])
        out = R if out is None else R2_merge(out, R)
    return out


def paths_agree(src):
    """the general procedure with the default names against the compiled procedure, and the grid with any names"""
    import pycontracts as P
    out = None
    for sw in P.COMBOS:
        R, w, a, b = _two(src, "default path and %s" % P.FIND[sw].name, ("C17",))
        R.do("calculateStandardCorrelation", a)
        R.do(P.FIND[sw], b)
        x, y = results(R, a), results(R, b)
        R.same("the same lags", x[0], y[0])
        R.show("as many rows", eq(x[1].len, y[1].len))
        r = declare_nonneg(fresh("$r", "I"))
        R.show("rows of the same length", or_(le(x[1].len, r), eq(x[1].get(r).len, y[1].get(r).len)))
        if sw == ("natural", "fractional"):
            R.same("the same correlations", x[1], y[1])
        for f in ("N", "min_lag", "max_lag", "lag_resolution", "alpha"):
            u, v = R.ex.read(R.st, a.f(f)), R.ex.read(R.st, b.f(f))
            R.same("the same %s" % f, u, v)
        out = R if out is None else R2_merge(out, R)
    return out


def units():
    return {"lemma: weights": weights, "lemma: estimator": estimator, "lemma: zero lag": zero_lag, "lemma: independence": independence,
            "lemma: value offset": offset, "lemma: value scale": value_scale, "lemma: time origin": time_origin, "lemma: time scale": time_scale, "lemma: valid correlator": valid_correlator, "lemma: repeatable": repeatable, "lemma: paths agree": paths_agree, "lemma: file and lists": file_lists,
            **{"lemma: valid DataStructure(%s)%s" % ("lists" if n else "list", "+errors" if e else ""): (lambda src, n=n, e=e: valid_data(src, n, e)) for n in (False, True) for e in (False, True)},
            "lemma: valid DataStructure(filename)": lambda src: valid_data(src, "filename", None)}
