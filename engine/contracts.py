"""The contracts of the C++ functions."""
import terms as t_
from terms import *
from values import *
from prover import QFact
from contract import Contract, Ctx
from cexec import State, symterm
import streams

STRICT = var("strictly_increasing", "B")
DBLMAX = rnum(int(1.7976931348623157e308))
V = "std::vector<double>"


class World:
    """an arbitrary valid data object (and correlator on it)"""
    def __init__(self, ex, st, suffix=""):
        s = suffix
        self.N = declare_nonneg(var("N_datasets" + s, "I"))
        self.M = declare_nonneg(var("M_datapoints" + s, "I"))
        self.s = s
        ex.fact(None, le(num(1), self.N))
        ex.fact(None, le(num(1), self.M))
        N, M = self.N, self.M
        i, j = declare_nonneg(fresh("$i", "I")), declare_nonneg(fresh("$j", "I"))
        # times: non-decreasing, finite, normalised to start at zero
        ex.fact(None, eq(self.T(num(0)), rnum(0)))
        ex.qfact(None, (i, j), or_(lt(i, num(0)), lt(j, i), le(M, j), le(self.T(i), self.T(j))))
        ex.qfact(None, (i, j), or_(not_(STRICT), lt(i, num(0)), le(j, i), le(M, j), lt(self.T(i), self.T(j))))
        self.nE = declare_nonneg(var("err_len" + s, "I"))
        ex.fact(None, or_(eq(self.nE, num(0)), eq(self.nE, mul(N, M))))
        f = {
            "t": vec_fn(M, lambda k: D(self.t0(k)), "d"),
            "_data": vec_fn(mul(N, M), lambda k: self.X(k), "d"),
            "err": vec_fn(self.nE, lambda k: self.E(k), "d"),
            "data_mean": vec_fn(N, lambda k: self.mean(k), "d"),
            "norm_t": vec_fn(M, lambda k: D(self.T(k)), "d"),
            "norm_data": vec_fn(mul(N, M), lambda k: self.ND(k), "d"),
            "t_median": D(var("t_median" + s, "R")), "t_max": D(var("t_max" + s, "R")), "t_length": D(var("t_length" + s, "R"), var("t_length_bad" + s, "B")),
            "N_datasets": N, "M_datapoints": M,
        }
        # the normalised values are the values less their mean (shown by 'valid DataStructure'); tried when a proof fails without
        r = declare_nonneg(fresh("$r", "I"))
        for row, vs in ((r, (i, r)), (num(0), (i,))):
            x, m, d = self.X(self.at(i, row)), self.mean(row), self.ND(self.at(i, row))
            out = or_(lt(i, num(0)), le(M, i), lt(row, num(0)), le(N, row))
            ex.more.append(QFact(vs, or_(out, iff(d.bad, or_(x.bad, m.bad)))))
            ex.more.append(QFact(vs, or_(out, d.bad, eq(d.v, sub(x.v, m.v)))))
            ex.more.append(QFact(vs, or_(out, x.bad, not_(m.bad))))
        ex.more.append(QFact((i,), or_(le(M, i), eq(self.T(i), sub(self.t0(i), self.t0(num(0)))))))
        last = self.t0(sub(M, num(1)))
        med = median_of(lambda i: D(self.T(i)), M)
        for a, b in (("t_max", last), ("t_median", med.v)):
            ex.more.append(eq(var(a + s, "R"), b))
        have = {x["name"]: ex.tyq(x) for x in ex.prog.fields("DataStructure")}
        for nme in f:
            if nme not in have:
                raise Unsupported("DataStructure has no field " + nme)
        for nme, ty in have.items():
            if nme not in f:
                f[nme] = ex.sym("ds." + nme + s, ty)
            elif ty == "d" and isinstance(f[nme], T):
                f[nme] = asD(f[nme])
        self.ds = LV(("g", "ds" + s))
        st.mem[self.ds.key] = Obj("DataStructure", f)

    def T(self, i):
        return app("T" + self.s, (i,), "R")

    def t0(self, i):
        return app("t" + self.s, (i,), "R")

    def X(self, k):
        return D(app("X" + self.s, (k,), "R"), app("X.nan" + self.s, (k,), "B"))

    def E(self, k):
        return D(app("Err" + self.s, (k,), "R"), app("Err.nan" + self.s, (k,), "B"))

    def mean(self, j):
        return D(app("mean" + self.s, (j,), "R"), app("mean.bad" + self.s, (j,), "B"))

    def ND(self, k):
        return D(app("ND" + self.s, (k,), "R"), app("ND.nan" + self.s, (k,), "B"))

    def NR(self, j):
        return D(app("NR" + self.s, (j,), "R"), app("NR.bad" + self.s, (j,), "B"))

    def at(self, i, r):
        return add(i, mul(r, self.M))

    def corr(self, ex, st):
        """an arbitrary valid correlator on this data object"""
        s = self.s
        self.nls = declare_nonneg(var("num_lag_steps" + s, "I"))
        f = {
            "ds": Ptr(self.ds),
            "correlation_data": Obj("CorrelationData", {
                "_timeseries": vec_fn(self.nls, lambda k: D(app("lag" + s, (k,), "R"), app("lag.nan" + s, (k,), "B")), "d"),
                "_correlations": vec_fn(mul(self.N, self.nls), lambda k: D(app("corr" + s, (k,), "R"), app("corr.nan" + s, (k,), "B")), "d")}),
            "N": vec_fn(self.N, lambda k: self.NR(k), "d"),
            "N_datasets": D(toR(self.N)), "M_datapoints": D(toR(self.M)), "num_lag_steps": self.nls,
        }
        for a in ("max_lag", "min_lag", "lag_resolution", "alpha"):
            f[a] = D(var(a + s, "R"))
        have = {x["name"]: ex.tyq(x) for x in ex.prog.fields("Correlator")}
        for nme in f:
            if nme not in have:
                raise Unsupported("Correlator has no field " + nme)
        for nme, ty in have.items():
            if nme not in f:
                f[nme] = ex.sym("cor." + nme + s, ty)
            elif ty in ("i", "u") and isinstance(f[nme], D):
                f[nme] = toI(f[nme].v)
        cd = {x["name"]: ex.tyq(x) for x in ex.prog.fields("CorrelationData")}
        if set(cd) != {"_timeseries", "_correlations"}:
            raise Unsupported("fields of CorrelationData")
        self.cor = LV(("g", "corr" + s))
        st.mem[self.cor.key] = Obj("Correlator", f)
        return self.cor

    def iterator(self, ex, st):
        """an arbitrary work record"""
        f = {}
        for x in ex.prog.fields("CorrelationIterator"):
            ty = ex.tyq(x)
            f[x["name"]] = ex.sym("it." + x["name"], ty)
        f["k"] = D(var("k", "R"))
        self.it = LV(("g", "it"))
        st.mem[self.it.key] = Obj("CorrelationIterator", f)
        return self.it


# ------------------------------------------------------------------ specification functions
class Spec:
    """reads the data object and correlator of the current state and states what the methods compute from them"""
    def __init__(self, c, corr):
        self.c = c
        ex = c.ex
        self.cor = corr
        self.ds = ex.read(c.pre, corr.f("ds")).lv
        g = lambda n: ex.read(c.pre, self.ds.f(n))
        self.N, self.M = g("N_datasets"), g("M_datapoints")
        if isinstance(self.N, D):
            self.N, self.M = toI(self.N.v), toI(self.M.v)
        self._T, self._ND, self._X = g("norm_t"), g("norm_data"), g("_data")
        self._NR = c.old(corr.f("N"))
        self.alpha = asD(c.old(corr.f("alpha")))

    def T(self, i):
        return self._T.get(i).v

    def ND(self, i, r):
        return self._ND.get(add(i, mul(r, self.M)))

    def NR(self, r):
        return self._NR.get(r)

    def np_natural(self, k):
        m = fresh("$m", "I")
        return first(m, lt(self.T(sub(self.M, num(1))), add(self.T(m), k)), self.M)

    def np_fast(self, k):
        m = fresh("$m", "I")
        return first(m, le(self.T(sub(self.M, num(1))), add(self.T(m), k)), self.M)

    def weight(self, w, d):
        a = self.alpha.v
        q = div(d, a)
        if w == "fractional":
            return inv(add(rnum(1), q))
        if w == "fractional_squared":
            return inv(add(rnum(1), mul(q, q)))
        return app("exp", (div(neg(mul(d, d)), scale(2, mul(a, a))),), "R")

    def nearest(self, sel, x, m):
        """sel is the sample nearest to x, the later one on a tie (m universally quantified)"""
        absd = lambda v: ite(le(rnum(0), v), v, neg(v))
        ds, dm = absd(sub(self.T(sel), x)), absd(sub(self.T(m), x))
        return and_(or_(le(self.M, m), le(ds, dm)), or_(le(self.M, m), le(m, sel), lt(ds, dm)))

    def natsel(self, k, i):
        return app("natural_selection" + suffix(self.ds), (k, i), "I")

    def fast0(self, k):
        return app("fast_start" + suffix(self.ds), (k,), "I")

    def sel(self, s, k, i):
        return self.natsel(k, i) if s == "natural" else add(self.fast0(k), i)

    def npairs(self, s, k):
        if s == "natural":
            return self.np_natural(k)
        p = self.np_fast(k)
        rest = sub(self.M, self.fast0(k))
        return ite(eq(p, num(0)), num(0), ite(le(p, rest), p, rest))

    def acf(self, s, w, r, k):
        """correlation of dataset r at lag k: the definition where it is established, a name for it where it is used"""
        if self.c.mode == "post" and self.c.contract.name in DEFINES_ACF:
            return self.acf_def(s, w, r, k)
        i = var("$key", "I")
        key = (s, w, suffix(self.ds), self.N.id, self.M.id) + tuple(x.id for v in (self._T, self._ND, self._NR) for d in [asD(v.get(i))] for x in (v.len, d.v, d.bad))
        nm = "acf%d" % ACF_NAMES.setdefault(key, len(ACF_NAMES))
        return D(app(nm, (self.alpha.v, r, k), "R"), app(nm + ".nan", (self.alpha.v, r, k), "B"))

    def acf_def(self, s, w, r, k):
        i = fresh("$i", "I")
        sl = self.sel(s, k, i)
        v = sub(self.T(sl), add(self.T(i), k))
        d = ite(le(rnum(0), v), v, neg(v))
        a, b = self.ND(i, r), self.ND(sl, r)
        n = self.npairs(s, k)
        nr = self.NR(r)
        return D(mul(sum_(i, mul(mul(self.weight(w, d), a.v), b.v), n), inv(nr.v)),
                 or_(exists(i, or_(a.bad, b.bad), n), nr.bad, eq(nr.v, rnum(0))))


DEFINES_ACF = {"_calculateStandardCorrelation"}
ACF_NAMES = {}


def suffix(lv):
    return lv.key[1][2:] if isinstance(lv.key[1], str) else ""


def dvar(name):
    return D(var(name, "R"))


CONTRACTS = {}


def contract(name, sigs, tags=(), **kw):
    def deco(spec):
        c = Contract(name, sigs, spec, kw.pop("setup"), tags=tags, **kw)
        CONTRACTS[sigs] = c
        return c
    return deco


def with_corr(*args, it=False, empty=()):
    def f(ex, st):
        w = World(ex, st)
        cor = w.corr(ex, st)
        vals = []
        if it:
            lv = w.iterator(ex, st)
            vals.append(Ptr(lv))
            for e in empty:
                ex.write(st, lv.f(e), vec_empty(ex.read(st, lv.f(e)).et))
        for a in args:
            vals.append(a() if callable(a) else a)
        return {"this": cor, "args": vals, "w": w}
    return f


def with_ds(*args):
    def f(ex, st):
        w = World(ex, st)
        return {"this": w.ds, "args": [a() if callable(a) else a for a in args], "w": w}
    return f


# ---- CorrelationIterator
def _ci_setup(ex, st):
    lv = LV(("g", "it"))
    st.mem[lv.key] = ex.default_of(("o", "CorrelationIterator"))
    n = declare_nonneg(var("vec_size", "I"))
    return {"this": lv, "args": [dvar("k_in"), D(toR(n))]}


@contract("CorrelationIterator", "CorrelationIterator::CorrelationIterator(double,double)", setup=_ci_setup)
def _(c):
    n = c.argd(1)
    c.requires("a whole number of datasets", and_(not_(n.bad), le(rnum(0), n.v), eq(toR(floor(n.v)), n.v)))
    c.sets(c.this.f("k"), c.argd(0), tags=("C07", "C11"))
    c.sets(c.this.f("correlation"), vec_fill(floor(n.v), D(rnum(0)), "d"), tags=("C11", "C13"))
    for f in ("shifted_timeseries", "delta_t", "weights"):
        c.sets(c.this.f(f), vec_empty("d"), tags=("C11", "C16"))
    c.sets(c.this.f("selection_indices"), vec_empty("i"), tags=("C11", "C16"))


# ---- selection
@contract("naturalSelectionFunctionIdx", "Correlator::naturalSelectionFunctionIdx(CorrelationIterator*)", setup=with_corr(it=True, empty=("shifted_timeseries", "selection_indices")))
def _(c):
    S, it = Spec(c, c.this), c.ptr(0)
    k = asD(c.old(it.f("k")))
    c.requires("a finite lag", not_(k.bad))
    k = k.v
    c.requires("a fresh record", and_(eq(c.old(it.f("shifted_timeseries")).len, num(0)), eq(c.old(it.f("selection_indices")).len, num(0))))
    np = S.np_natural(k)
    c.sets(it.f("shifted_timeseries"), vec_fn(np, lambda i: D(add(S.T(i), k)), "d"), tags=("C08",))
    sel = pairing(c, it, np, lambda i: S.natsel(k, i))
    c.ensures("one pair per eligible point", eq(sel.len, np), tags=("C08",))
    i, m = c.v("i"), c.v("m")
    e = sel.get(i)
    c.ensures("selected samples exist", or_(le(np, i), and_(le(num(0), e), lt(e, S.M))), tags=("C14", "C08"), vars_=(i,))
    c.ensures("nearest sample, the later one on a tie", or_(not_(STRICT), le(np, i), S.nearest(e, add(S.T(i), k), m)), tags=("C08",), vars_=(i, m))
    if c.mode == "post":
        reads(c, sel, {"T", "M_datapoints", "k", "natural_selection", "fast_start"}, "pairing depends on times and lag only", ("C13", "C16", "C17"))


def pairing(c, it, n, fn):
    """the selected samples; for callers they are a named function of times, lag and position (reads clause, checked when
    the body is verified)"""
    lv = it.f("selection_indices")
    if c.mode == "apply":
        v = vec_fn(n, fn, "i")
        c.written.append(lv)
        c.writes.append((lv, v))
        return v
    return c.havoc(lv)


def reads(c, v, allowed, label, tags):
    """the value depends on nothing but the listed symbols (syntactic on the computed value)"""
    used = value_names(v)
    extra = sorted(x for x in used if x not in allowed and not x.startswith("$") and x not in ("idiv", "exp") and not is_const_name(x))
    c.ex.oblige("reads", "%s: %s%s" % (c.contract.name, label, " (also uses %s)" % extra if extra else ""), State((), ()), B(not extra) if not extra else FALSE, tags)


def is_const_name(x):
    return False


def value_names(v):
    if isinstance(v, T):
        return set(names_in(v))
    if isinstance(v, D):
        return value_names(v.v) | value_names(v.bad)
    if isinstance(v, Vec):
        return value_names(v.len) | value_names(v.body)
    return set()


@contract("fastSelectionFunctionIdx", "Correlator::fastSelectionFunctionIdx(CorrelationIterator*)", setup=with_corr(it=True, empty=("shifted_timeseries", "selection_indices")))
def _(c):
    S, it = Spec(c, c.this), c.ptr(0)
    k = asD(c.old(it.f("k")))
    c.requires("a finite lag", not_(k.bad))
    k = k.v
    c.requires("a fresh record", and_(eq(c.old(it.f("shifted_timeseries")).len, num(0)), eq(c.old(it.f("selection_indices")).len, num(0))))
    np = S.np_fast(k)
    c.sets(it.f("shifted_timeseries"), vec_fn(np, lambda i: D(add(S.T(i), k)), "d"), tags=("C09",))
    sel = pairing(c, it, S.npairs("fast", k), lambda i: add(S.fast0(k), i))
    i, m = c.v("i"), c.v("m")
    s0 = sel.get(num(0))
    some = lt(num(0), np)
    rest = sub(S.M, s0)
    c.ensures("pairs until points or samples run out", eq(sel.len, ite(some, ite(le(np, rest), np, rest), num(0))), tags=("C09",))
    c.ensures("the first sample exists", imp(some, and_(le(num(0), s0), lt(s0, S.M))), tags=("C09", "C14"))
    c.ensures("first pair: nearest sample, the later one on a tie", or_(not_(STRICT), not_(some), S.nearest(s0, S.T(num(0)) if False else add(S.T(num(0)), k), m)), tags=("C09",), vars_=(m,))
    c.ensures("each following point is paired with the next sample", or_(le(sel.len, i), eq(sel.get(i), add(s0, i))), tags=("C09",), vars_=(i,))
    if c.mode == "post":
        reads(c, sel, {"T", "M_datapoints", "k", "natural_selection", "fast_start"}, "pairing depends on times and lag only", ("C13", "C16", "C17"))


@contract("deltaT", "Correlator::deltaT(CorrelationIterator*)", setup=with_corr(it=True))
def _(c):
    S, it = Spec(c, c.this), c.ptr(0)
    sel, sh = c.old(it.f("selection_indices")), c.old(it.f("shifted_timeseries"))
    i = c.v("i")
    c.requires("a shifted time per pair", le(sel.len, sh.len))
    c.requires("selected samples exist", or_(le(sel.len, i), and_(le(num(0), sel.get(i)), lt(sel.get(i), S.M))), (i,))
    c.requires("no distances yet", eq(c.old(it.f("delta_t")).len, num(0)))

    def dist(q):
        s = sh.get(q)
        v = sub(S.T(sel.get(q)), s.v)
        return D(ite(le(rnum(0), v), v, neg(v)), s.bad)
    c.sets(it.f("delta_t"), vec_fn(sel.len, dist, "d"), label="distance of each pair", tags=("C08", "C09"))
    c.havoc(it.f("shifted_timeseries"))


# ---- weights
for _w, _m, _f in (("fractional", "getFractionWeights", "fractionWeightFunction"), ("fractional_squared", "getFractionSquaredWeights", "fractionSquaredWeightFunction"), ("gaussian", "getGaussianWeights", "gaussianWeightFunction")):
    def _mk(w, m, f):
        @contract(m, "Correlator::%s(CorrelationIterator*)" % m, setup=with_corr(it=True))
        def _(c):
            S, it = Spec(c, c.this), c.ptr(0)
            d = c.old(it.f("delta_t"))
            i = c.v("i")
            c.requires("a positive length scale", and_(not_(S.alpha.bad), lt(rnum(0), S.alpha.v)))
            c.requires("distances are not negative", or_(le(d.len, i), and_(not_(d.get(i).bad), le(rnum(0), d.get(i).v))), (i,))
            c.requires("no weights yet", eq(c.old(it.f("weights")).len, num(0)))
            c.sets(it.f("weights"), vec_fn(d.len, lambda q: D(S.weight(w, d.get(q).v)), "d"), label="weight of each pair", tags=("C10",))
            c.havoc(it.f("delta_t"))

        @contract(f, "Correlator::%s(double)" % f, setup=with_corr(lambda: dvar("delta")))
        def _(c):
            S = Spec(c, c.this)
            d = c.argd(0)
            c.requires("a positive length scale", and_(not_(S.alpha.bad), lt(rnum(0), S.alpha.v)))
            c.requires("the distance is not negative", and_(not_(d.bad), le(rnum(0), d.v)))
            c.returns(D(S.weight(w, d.v)), tags=("C10",))
    _mk(_w, _m, _f)


# ---- correlation
@contract("findCorrelation", "Correlator::findCorrelation(CorrelationIterator*)", setup=with_corr(it=True))
def _(c):
    S, it = Spec(c, c.this), c.ptr(0)
    sel, w, c0 = c.old(it.f("selection_indices")), c.old(it.f("weights")), c.old(it.f("correlation"))
    i = c.v("i")
    c.requires("a selected sample per weight", le(w.len, sel.len))
    c.requires("no more pairs than points", le(w.len, S.M))
    c.requires("selected samples exist", or_(le(sel.len, i), and_(le(num(0), sel.get(i)), lt(sel.get(i), S.M))), (i,))
    c.requires("one correlation per dataset", eq(c0.len, S.N))

    def val(r):
        q = fresh("$q", "I")
        a, b, ww, nr, z = S.ND(q, r), S.ND(sel.get(q), r), asD(w.get(q)), S.NR(r), c0.get(r)
        return D(mul(add(z.v, sum_(q, mul(mul(ww.v, a.v), b.v), w.len)), inv(nr.v)),
                 or_(z.bad, exists(q, or_(ww.bad, a.bad, b.bad), w.len), nr.bad, eq(nr.v, rnum(0))))
    c.sets(it.f("correlation"), vec_fn(S.N, val, "d"), label="correlation of each dataset", tags=("C11", "C13"))


# ---- table
def table(c):
    cd = c.this.f("correlation_data")
    return c.this.f("num_lag_steps"), cd.f("_timeseries"), cd.f("_correlations")


def table_valid(c, S):
    nls, ts, co = [c.old(x) for x in table(c)]
    c.requires("a consistent table", and_(le(num(0), nls), eq(ts.len, nls), eq(co.len, mul(S.N, nls))))
    return nls, ts, co


def table_after(c, S, t, k, corr_at, tags_lag=("C07",), tags_cor=("C13", "C11")):
    """the table after storing column t"""
    nls, ts, co = table_valid(c, S)
    a, b, d = table(c)
    nls2, ts2, co2 = c.havoc(a), c.havoc(b), c.havoc(d)
    c.ensures("the table is large enough", and_(le(nls, nls2), lt(t, nls2)), tags=("C14", "C07", "C13"))
    c.ensures("one lag per column", eq(ts2.len, nls2), tags=("C14", "C07"))
    c.ensures("one row per dataset", eq(co2.len, mul(S.N, nls2)), tags=("C14", "C13"))
    q, r = c.v("c"), c.v("r")
    for lab, vs, g in veq_goals(asD(ts2.get(t)), k, "the lag is stored"):
        c.ensures(lab, g, tags=tags_lag)
    for lab, vs, g in veq_goals(ts2.get(q), ts.get(q), "other lags are kept"):
        c.ensures(lab, or_(le(nls, q), eq(q, t), g), tags=tags_lag, vars_=(q,))
    for lab, vs, g in veq_goals(co2.get(add(t, mul(nls2, r))), corr_at(r), "the correlation is stored in its row"):
        c.ensures(lab, or_(le(S.N, r), g), tags=tags_cor, vars_=(r,))
    for lab, vs, g in veq_goals(co2.get(add(q, mul(nls2, r))), co.get(add(q, mul(nls, r))), "other correlations are kept"):
        c.ensures(lab, or_(le(nls, q), eq(q, t), le(S.N, r), g), tags=tags_cor, vars_=(q, r))


def _int(name):
    return lambda: declare_nonneg(var(name, "I"))


@contract("addCorrelationData", "Correlator::addCorrelationData(CorrelationIterator*,int)", setup=with_corr(_int("timestep"), it=True))
def _(c):
    S, it = Spec(c, c.this), c.ptr(0)
    t = c.arg(1)
    co = c.old(it.f("correlation"))
    c.requires("the step is not negative", le(num(0), t))
    c.requires("one correlation per dataset", eq(co.len, S.N))
    table_after(c, S, t, asD(c.old(it.f("k"))), lambda r: co.get(r))


@contract("cleanCorrelationData", "Correlator::cleanCorrelationData(int)", setup=with_corr(_int("new_size")))
def _(c):
    S = Spec(c, c.this)
    i = c.arg(0)
    c.requires("the size is not negative", le(num(0), i))
    nls, ts, co = table_valid(c, S)
    a, b, d = table(c)
    c.sets(a, i, tags=("C07", "C13"))
    ts2, co2 = c.havoc(b), c.havoc(d)
    c.ensures("one lag per column", eq(ts2.len, i), tags=("C14", "C07"))
    c.ensures("one row per dataset", eq(co2.len, mul(S.N, i)), tags=("C14", "C13"))
    q, r = c.v("c"), c.v("r")
    for lab, vs, g in veq_goals(ts2.get(q), ts.get(q), "lags are kept"):
        c.ensures(lab, or_(le(nls, q), le(i, q), g), tags=("C07",), vars_=(q,))
    for lab, vs, g in veq_goals(co2.get(add(q, mul(i, r))), co.get(add(q, mul(nls, r))), "correlations are kept"):
        c.ensures(lab, or_(le(nls, q), le(i, q), le(S.N, r), g), tags=("C13",), vars_=(q, r))


@contract("clearCorrelation", "Correlator::clearCorrelation()", setup=with_corr())
def _(c):
    a, b, d = table(c)
    c.sets(a, num(0), tags=("C16", "C14"))
    c.sets(b, vec_empty("d"), tags=("C16", "C14"))
    c.sets(d, vec_empty("d"), tags=("C16", "C14"))


# ---- reading
@contract("correlations", "Correlator::correlations()", setup=with_corr())
def _(c):
    S = Spec(c, c.this)
    nls, ts, co = table_valid(c, S)
    c.returns(vec_fn(S.N, lambda r: vec_fn(nls, lambda q: co.get(add(q, mul(nls, r))), "d"), ("v", "d")), label="row of each dataset", tags=("C13",))


@contract("lag_timeseries", "Correlator::lag_timeseries()", setup=with_corr())
def _(c):
    c.returns(c.old(table(c)[1]), label="stored lags", tags=("C07", "C13"))


@contract("Correlator.normalised_timeseries", "Correlator::normalised_timeseries()", setup=with_corr())
def _(c):
    S = Spec(c, c.this)
    c.returns(S._T, tags=("C04",))


@contract("Correlator.values", "Correlator::values()", setup=with_corr())
def _(c):
    S = Spec(c, c.this)
    c.returns(vec_fn(S.N, lambda r: vec_fn(S.M, lambda q: S._X.get(add(q, mul(r, S.M))), "d"), ("v", "d")), tags=("C01",))


for _f, _s, _g in (("max_lag", "setMaxLag", "getMaxLag"), ("min_lag", "setMinLag", "getMinLag"), ("lag_resolution", "setLagResolution", "getLagResolution"), ("alpha", "setAlpha", "getAlpha")):
    def _mk2(f, s, g):
        @contract(s, "Correlator::%s(double)" % s, setup=with_corr(lambda: D(var("value", "R"), var("value_nan", "B")) if f == "lag_resolution" else dvar("value")))
        def _(c):
            if f == "lag_resolution":
                c.raises("std::invalid_argument", or_(c.argd(0).bad, le(c.argd(0).v, rnum(0))), tags=("C06", "C14"))
            c.sets(c.this.f(f), c.argd(0), tags=("C06",))

        @contract(g, "Correlator::%s()" % g, setup=with_corr())
        def _(c):
            c.returns(c.old(c.this.f(f)), tags=("C06",))
    _mk2(_f, _s, _g)


@contract("getMDatapoints", "Correlator::getMDatapoints()", setup=with_corr())
def _(c):
    c.returns(D(toR(Spec(c, c.this).M)), tags=("C01",))


@contract("getNDatasets", "Correlator::getNDatasets()", setup=with_corr())
def _(c):
    c.returns(D(toR(Spec(c, c.this).N)), tags=("C13",))


# ---- one lag of the default path
@contract("_calculateStandardCorrelation", "Correlator::_calculateStandardCorrelation(double,int)", setup=with_corr(lambda: dvar("lag_in"), _int("timestep")))
def _(c):
    S = Spec(c, c.this)
    k, t = c.argd(0), c.arg(1)
    c.requires("a finite lag", not_(k.bad))
    c.requires("the step is not negative", le(num(0), t))
    c.requires("a positive length scale", and_(not_(S.alpha.bad), lt(rnum(0), S.alpha.v)))
    table_after(c, S, t, k, lambda r: S.acf("natural", "fractional", r, k.v), tags_lag=("C07", "C17"), tags_cor=("C11", "C13", "C17"))


# ---- all lags
class Lags:
    """the lag grid as a function of minimum, maximum and resolution (reals)"""
    def __init__(self, lo, hi, res):
        self.lo, self.hi, self.res = lo, hi, res
        m = fresh("$m", "I")
        self.CNT = least(m, lt(hi, self.g(m)))      # grid points that do not exceed the maximum
        self.z = least(m, le(rnum(0), self.g(m)))   # first grid point that is not negative
        self.L = self.upto(self.CNT)

    def g(self, n):
        return add(self.lo, mul(toR(n), self.res))

    def on_grid(self):
        return eq(self.g(self.z), rnum(0))

    def upto(self, n):
        """lags produced by the first n grid points"""
        return add(n, ite(and_(lt(self.z, n), not_(self.on_grid())), num(1), num(0)))

    def lag(self, j):
        return ite(or_(self.on_grid(), lt(j, self.z)), self.g(j), ite(eq(j, self.z), rnum(0), self.g(sub(j, num(1)))))

    def lemmas(self):
        a, b = declare_nonneg(fresh("$m1", "I")), declare_nonneg(fresh("$m2", "I"))
        pos = lt(rnum(0), self.res)
        return [QFact((a, b), imp(pos, and_(or_(lt(b, a), le(self.g(a), self.g(b))), or_(le(b, a), lt(self.g(a), self.g(b))))), True, [self.z, self.CNT])]


class LagHint:
    """invariant of a loop over the lag grid that fills the table of a correlator"""
    def __init__(self, corr, lags, S, s, w):
        self.corr, self.key, self.G, self.N = corr, corr.key, lags, S.N
        self.S, self.s, self.w = S, s, w
        self.acf = lambda r, k: S.acf(s, w, r, k)
        self.lemmas = lags.lemmas()
        self.cuts = {"addCorrelationData": self.cut}

    def cut(self, ex, st, this, vals):
        """a record stored in the table holds the estimator at its lag; from here on the estimator goes by its name"""
        if not this.same(self.corr) or not isinstance(vals[0], Ptr):
            return
        it = vals[0].lv
        k, co = asD(ex.read(st, it.f("k"))), ex.read(st, it.f("correlation"))
        r = declare_nonneg(fresh("$r", "I"))
        S = self.S
        ex.oblige("ensures", "a stored record has a finite lag", st, not_(k.bad), ("C07", "C11"))
        ex.oblige("ensures", "a stored record has one correlation per dataset", st, eq(co.len, S.N), ("C11", "C13"))
        for lab, vs, g in veq_goals(co.get(r), S.acf_def(self.s, self.w, r, k.v), "a stored record holds the estimator at its lag"):
            ex.oblige("ensures", lab, st, or_(le(S.N, r), g), ("C11", "C13", "C17"))
        ex.write(st, it.f("correlation"), vec_fn(S.N, lambda r: S.acf(self.s, self.w, r, k.v), "d"))

    def table_role(self, ex, leaf):
        key, path = leaf
        if key != self.key:
            return None
        return {("num_lag_steps",): "nls", ("correlation_data", "_timeseries"): "ts", ("correlation_data", "_correlations"): "co"}.get(tuple(path))

    def scalars(self, n, sort):
        G = self.G
        if sort == "B":
            return [lt(G.z, n), le(n, G.z)]
        if sort == "I":
            return [G.upto(n), sub(G.upto(n), num(1)), add(G.upto(n), num(1))]
        return []

    def invariant(self, ex, vals, n):
        G = self.G
        i = G.upto(n)
        nls, ts, co = vals["nls"], vals["ts"], vals["co"]
        q, r = declare_nonneg(fresh("$c", "I")), declare_nonneg(fresh("$r", "I"))
        out = [("table at least as large as the lags stored", (), and_(le(num(0), nls), le(i, nls))),
               ("one lag per column", (), eq(ts.len, nls)), ("one row per dataset", (), eq(co.len, mul(self.N, nls)))]
        for lab, vs, f in veq_goals(ts.get(q), D(G.lag(q)), "lags stored so far"):
            out.append((lab, (q,), or_(le(i, q), f)))
        for lab, vs, f in veq_goals(co.get(add(q, mul(nls, r))), self.acf(r, G.lag(q)), "correlations stored so far"):
            out.append((lab, (q, r), or_(le(i, q), le(self.N, r), f)))
        return out


def full_result(c, S, s, w, tags=()):
    """the table after computing every lag of the grid with selection s and weight w"""
    g = lambda f: asD(c.old(c.this.f(f)))
    lo, hi, res = g("min_lag"), g("max_lag"), g("lag_resolution")
    c.requires("finite lag settings", and_(not_(lo.bad), not_(hi.bad), not_(res.bad)))
    c.requires("a positive resolution", lt(rnum(0), res.v))
    c.requires("a positive length scale", and_(not_(S.alpha.bad), lt(rnum(0), S.alpha.v)))
    table_valid(c, S)
    G = Lags(lo.v, hi.v, res.v)
    a, b, d = table(c)
    c.sets(a, G.L, label="number of lags", tags=("C07", "C13") + tags)
    ts2, co2 = c.havoc(b), c.havoc(d)
    c.ensures("one lag per column", eq(ts2.len, G.L), tags=("C07", "C13", "C14"))
    c.ensures("one row per dataset", eq(co2.len, mul(S.N, G.L)), tags=("C13", "C14"))
    q, r = c.v("c"), c.v("r")
    for lab, vs, f in veq_goals(ts2.get(q), D(G.lag(q)), "the lag grid"):
        c.ensures(lab, or_(le(G.L, q), f), tags=("C07",) + tags, vars_=(q,))
    for lab, vs, f in veq_goals(co2.get(add(q, mul(G.L, r))), S.acf(s, w, r, G.lag(q)), "every correlation is the estimator at its lag"):
        c.ensures(lab, or_(le(G.L, q), le(S.N, r), f), tags=("C11", "C13") + tags, vars_=(q, r))
    return G


def _std_setup(ex, st):
    env = with_corr()(ex, st)
    c = Ctx(None, ex, "none", st, st, env["this"], [])
    S = Spec(c, env["this"])
    g = lambda f: asD(ex.read(st, env["this"].f(f))).v
    env["hint"] = LagHint(env["this"], Lags(g("min_lag"), g("max_lag"), g("lag_resolution")), S, "natural", "fractional")
    return env


@contract("calculateStandardCorrelation", "Correlator::calculateStandardCorrelation()", setup=_std_setup)
def _(c):
    full_result(c, Spec(c, c.this), "natural", "fractional", ("C17",))


# ---- construction of a correlator
def _cor_setup(ex, st):
    w = World(ex, st)
    lv = LV(("g", "corr"))
    st.mem[lv.key] = ex.default_of(("o", "Correlator"))
    return {"this": lv, "args": [Ptr(w.ds)], "w": w}


def ds_fields(c, ds):
    g = lambda n: c.old(ds.f(n))
    return g


def sum_of_squares(M, X, mean):
    """per dataset: sum of the squared differences from the mean, missing values left out"""
    def norm(r):
        i = fresh("$i", "I")
        x, m = X.get(add(i, mul(r, M))), mean.get(r)
        d = sub(x.v, m.v)
        return D(sum_(i, ite(x.bad, rnum(0), mul(d, d)), M), exists(i, and_(not_(x.bad), m.bad), M))
    return norm


def default_resolution(ds):
    return var("default_resolution" + suffix(ds), "R")


@contract("Correlator", "Correlator::Correlator(DataStructure*)", setup=_cor_setup)
def _(c):
    ds = c.ptr(0)
    g = lambda n: c.old(ds.f(n))
    N, M, T, X, mean = g("N_datasets"), g("M_datapoints"), g("norm_t"), g("_data"), g("data_mean")
    Td = lambda i: asD(T.get(i)).v
    c.requires("a valid data object", and_(le(num(1), N), le(num(1), M), eq(T.len, M), eq(X.len, mul(N, M)), eq(mean.len, N)))
    th = c.this
    if c.mode == "apply":
        c.writes.append((th.f("ds"), Ptr(ds)))
    elif c.mode == "post":
        p = c.ex.read(c.post, th.f("ds"))
        c.ex.oblige("ensures", "Correlator: it works on the given data object", c.post, B(isinstance(p, Ptr) and p.lv.same(ds)), ("C11", "C13"))
    c.written.append(th.f("ds"))
    c.sets(th.f("N_datasets"), D(toR(N)), tags=("C13",))
    c.sets(th.f("M_datapoints"), D(toR(M)), tags=("C13",))

    norm = sum_of_squares(M, X, mean)
    c.sets(th.f("N"), vec_fn(N, norm, "d"), label="sum of squares of each dataset", tags=("C11", "C13"))
    last = Td(sub(M, num(1)))
    c.sets(th.f("max_lag"), D(last), tags=("C06",))
    c.sets(th.f("min_lag"), D(neg(last)), tags=("C06",))
    c.sets(th.f("alpha"), asD(g("t_median")), tags=("C06",))
    if c.mode == "apply":
        # the default resolution is a function of the times (reads clause, checked when the body is verified)
        res = D(default_resolution(ds))
        c.writes.append((th.f("lag_resolution"), res))
        c.written.append(th.f("lag_resolution"))
    else:
        res = asD(c.havoc(th.f("lag_resolution")))
    i = c.v("i")
    gap = lambda i: sub(Td(add(i, num(1))), Td(i))
    end = le(sub(M, num(1)), i)
    m = fresh("$m", "I")
    c.ensures("the default resolution is a positive number", and_(not_(res.bad), lt(rnum(0), res.v)), tags=("C06", "C14"))
    c.ensures("the default resolution does not exceed any positive gap", or_(end, le(gap(i), rnum(0)), le(res.v, gap(i))), tags=("C06",), vars_=(i,))
    c.ensures("the default resolution is one of the gaps", or_(exists(m, eq(res.v, gap(m)), sub(M, num(1))), or_(end, le(gap(i), rnum(0)), le(DBLMAX, gap(i)))), tags=("C06",), vars_=(i,))
    if c.mode == "post":
        reads(c, res, {"T", "M_datapoints", "default_resolution"}, "the default resolution depends on the times only", ("C06", "C13", "C15"))
    a, b, d = table(c)
    c.sets(a, num(0), tags=("C07", "C14"))
    c.sets(b, vec_empty("d"), tags=("C14", "C16"))
    c.sets(d, vec_empty("d"), tags=("C14", "C16"))


# ---- construction of a data object
def _ds_setup(nested, errors):
    def f(ex, st):
        lv = LV(("g", "ds"))
        st.mem[lv.key] = ex.default_of(("o", "DataStructure"))
        vals = []
        for nm, et in (("t", "d"), ("values", ("v", "d") if nested else "d"), ("errors", ("v", "d") if nested else "d"))[:3 if errors else 2]:
            a = LV(("g", nm + "_in"))
            v = vec_sym(nm + "_in", et, flags=nm != "t")
            st.mem[a.key] = v
            vals.append(Ptr(a))
        return {"this": lv, "args": vals}
    return f


def difference(a, b):
    return D(sub(a.v, b.v), or_(a.bad, b.bad))


def mean_of(x, M):
    """mean of the x(i), i < M, that are not missing"""
    k = fresh("$k", "I")
    cnt = count(k, not_(x(k).bad), M)
    return D(div(sum_(k, ite(x(k).bad, rnum(0), x(k).v), M), toR(cnt)), eq(cnt, num(0)))


def median_of(t, M):
    """median of the ordered t(i), i < M"""
    h = idiv(M, num(2))
    lo, hi = t(sub(h, num(1))), t(h)
    return vite(eq(M, mul(num(2), h)), D(scale(Fraction(1, 2), add(lo.v, hi.v)), or_(lo.bad, hi.bad)), hi)


def setup_result(c, t, N, val, err, errlen, more=()):
    """the state of a data object built from times t, N datasets with values val(i, r) and errors err(i, r)"""
    th = c.this
    M = t.len
    c.sets(th.f("N_datasets"), N, tags=("C01",) + more)
    c.sets(th.f("M_datapoints"), M, tags=("C01",) + more)
    c.sets(th.f("t"), t, label="times", tags=("C01",) + more)
    r, i = c.v("r"), c.v("i")
    out = or_(le(M, i), le(N, r))
    at = add(i, mul(r, M))
    data, e = c.havoc(th.f("_data")), c.havoc(th.f("err"))
    c.ensures("a value per dataset and time", eq(data.len, mul(N, M)), tags=("C01", "C14") + more)
    for lab, vs, f in veq_goals(data.get(at), val(i, r), "every value is kept in its place"):
        c.ensures(lab, or_(out, f), tags=("C01",) + more, vars_=(i, r))
    c.ensures("an error per value, or none", eq(e.len, errlen), tags=("C01", "C14") + more)
    if err is not None:
        for lab, vs, f in veq_goals(e.get(at), err(i, r), "every error is kept in its place"):
            c.ensures(lab, or_(eq(errlen, num(0)), out, f), tags=("C01",) + more, vars_=(i, r))
    # derived quantities
    mean, nd = c.havoc(th.f("data_mean")), c.havoc(th.f("norm_data"))
    x = lambda i: val(i, r)
    m = mean_of(x, M)
    c.ensures("one mean per dataset", eq(mean.len, N), tags=("C03", "C14") + more)
    for lab, vs, f in veq_goals(mean.get(r), m, "mean of the values that are not missing"):
        c.ensures(lab, or_(le(N, r), f), tags=("C03",) + more, vars_=(r,))
    c.ensures("a normalised value per value", eq(nd.len, mul(N, M)), tags=("C03", "C14") + more)
    xm = mean.get(r)
    for lab, vs, f in veq_goals(nd.get(at), difference(x(i), xm), "normalised value is the value minus the mean of its dataset"):
        c.ensures(lab, or_(out, f), tags=("C03",) + more, vars_=(i, r))
    T0 = asD(t.get(num(0)))
    nt = lambda i: difference(asD(t.get(i)), T0)
    c.sets(th.f("norm_t"), vec_fn(M, nt, "d"), label="times since the first", tags=("C04",) + more)
    c.sets(th.f("t_max"), asD(t.get(sub(M, num(1)))), label="last time", tags=("C04",) + more)
    c.sets(th.f("t_median"), median_of(nt, M), label="median time", tags=("C04",) + more)


def _ds_spec(nested, errors):
    def spec(c):
        t = c.ex.read(c.pre, c.ptr(0))
        v = c.ex.read(c.pre, c.ptr(1))
        e = c.ex.read(c.pre, c.ptr(2)) if errors else None
        M = t.len
        j = fresh("$j", "I")
        if nested:
            N = v.len
            val = lambda i, r: v.get(r).get(i)
            novalues = forall(j, eq(v.get(j).len, num(0)), N)
            mism = exists(j, ne(v.get(j).len, M), N)
        else:
            N = num(1)
            val = lambda i, r: v.get(i)
            novalues = eq(v.len, num(0))
            mism = ne(v.len, M)
        errlen, err = num(0), None
        if errors:
            if nested:
                err = lambda i, r: e.get(r).get(i)
                none = eq(e.len, num(0))
                mism = or_(mism, and_(not_(none), or_(exists(j, ne(e.get(j).len, M), e.len), ne(e.len, N))))
            else:
                err = lambda i, r: e.get(i)
                none = eq(e.len, num(0))
                mism = or_(mism, and_(not_(none), ne(e.len, M)))
            errlen = ite(none, num(0), mul(N, M))
        c.raises("EmptyDataStructureException", or_(eq(M, num(0)), novalues), tags=("C02",))
        c.raises("BadDataInputException", mism, tags=("C02",))
        setup_result(c, t, N, val, err, errlen)
    return spec


VD, VVD = "std::vector<double>*", "std::vector<std::vector<double>>*"
for _n, _e, _s in ((False, False, (VD, VD)), (False, True, (VD, VD, VD)), (True, False, (VD, VVD)), (True, True, (VD, VVD, VVD))):
    contract("DataStructure(%s)" % ("lists" if _n else "list") + ("+errors" if _e else ""), "DataStructure::DataStructure(%s)" % ",".join(_s), setup=_ds_setup(_n, _e))(_ds_spec(_n, _e))


# ---- reading a data object from a file
class FileRows:
    """the data rows of a file: lines not starting with # whose first two fields are numbers"""
    def __init__(self, name):
        self.name, self.NL = name, streams.lines(name)
        m = self.m = fresh("$m", "I")
        self.row = and_(ne(streams.char(streams.line(name, m), num(0)), num(35)), le(num(2), self.nf(m)))
        self.R = count(m, self.row, self.NL)
        self.any = exists(m, self.row, self.NL)

    def nf(self, m):
        return streams.fields(streams.blank(streams.line(self.name, m)))

    def at(self, q):
        return nth(self.m, self.row, q)

    def field(self, q, j):
        return streams.number(streams.blank(streams.line(self.name, self.at(q))), num(j))

    def first3(self, n):
        """the first data row among the first n lines has a third number (false when there is no data row)"""
        return and_(exists(self.m, self.row, n), le(num(3), self.nf(first(self.m, self.row, n))))

    def error(self, q):
        return D(self.field(q, 2), lt(self.nf(self.at(q)), num(3)))


class FileHint:
    lemmas, cuts = [], {}

    def __init__(self, rows):
        self.r = rows

    def table_role(self, ex, leaf):
        return None

    def scalars(self, n, sort):
        return self.joint(n) if sort == "B" else []

    def joint(self, n):
        seen, f3 = exists(self.r.m, self.r.row, n), self.r.first3(n)
        return [or_(not_(seen), f3), or_(not_(seen), not_(f3)), f3, not_(f3), seen, not_(seen), and_(seen, not_(f3))]

    def vectors(self, n):
        r = self.r
        return [vec_fn(ite(r.first3(n), count(r.m, r.row, n), num(0)), r.error, "d")]


def _file_setup(ex, st):
    lv, a = LV(("g", "ds")), LV(("g", "filename"))
    st.mem[lv.key] = ex.default_of(("o", "DataStructure"))
    st.mem[a.key] = var("filename", "I")
    return {"this": lv, "args": [Ref(a)], "hint": FileHint(FileRows(st.mem[a.key]))}


@contract("DataStructure(filename)", "DataStructure::DataStructure(conststd::string&)", setup=_file_setup)
def _(c):
    f = c.args[0]
    rows = FileRows(c.old(f.lv) if isinstance(f, Ref) else f if isinstance(f, T) else f.term)
    i = c.v("line")
    ln = streams.line(rows.name, i)
    c.requires("at most three columns", or_(le(rows.NL, i), and_(le(streams.fields(ln), num(3)), le(streams.fields(streams.blank(ln)), num(3)))), (i,))
    c.raises("BadDataFileReadException", not_(streams.opened(rows.name)), tags=("C05", "C02"))
    c.raises("EmptyDataStructureException", and_(streams.opened(rows.name), eq(rows.R, num(0))), tags=("C05", "C02"))
    t = vec_fn(rows.R, lambda q: D(rows.field(q, 0)), "d")
    setup_result(c, t, num(1), lambda i, r: D(rows.field(i, 1)), lambda i, r: rows.error(i), ite(rows.first3(rows.NL), rows.R, num(0)), ("C05",))


# ---- reading a data object
def _mat(c, S, src, tags, label):
    c.returns(vec_fn(S.N, lambda r: vec_fn(S.M, lambda q: src.get(add(q, mul(r, S.M))), "d"), ("v", "d")), label=label, tags=tags)


class DSpec:
    def __init__(self, c):
        g = lambda n: c.old(c.this.f(n))
        self.g = g
        self.N, self.M = [toI(x.v) if isinstance(x, D) else x for x in (g("N_datasets"), g("M_datapoints"))]


@contract("data_2d", "DataStructure::data_2d()", setup=with_ds())
def _(c):
    S = DSpec(c)
    _mat(c, S, S.g("_data"), ("C01",), "values of each dataset")


@contract("normalised_data_2d", "DataStructure::normalised_data_2d()", setup=with_ds())
def _(c):
    S = DSpec(c)
    _mat(c, S, S.g("norm_data"), ("C03",), "normalised values of each dataset")


@contract("err_2d", "DataStructure::err_2d()", setup=with_ds())
def _(c):
    S = DSpec(c)
    e = S.g("err")
    none = eq(e.len, num(0))
    if c.mode == "post":
        n = c.ret.len
        r, q = c.v("r"), c.v("q")
        c.ensures("no errors when none were supplied, else a row per dataset", eq(n, ite(none, num(0), S.N)), tags=("C01",))
        row = c.ret.get(r)
        c.ensures("an error per point", or_(le(n, r), eq(row.len, S.M)), tags=("C01",), vars_=(r,))
        for lab, vs, g in veq_goals(row.get(q), e.get(add(q, mul(r, S.M))), "errors of each dataset"):
            c.ensures(lab, or_(none, le(S.N, r), le(S.M, q), g), tags=("C01",), vars_=(r, q))
    elif c.mode == "apply":
        c.ret = vec_fn(ite(none, num(0), S.N), lambda r: vec_fn(S.M, lambda q: e.get(add(q, mul(r, S.M))), "d"), ("v", "d"))


for _f, _m, _t, _l in (("t", "timeseries", "C01", "supplied times"), ("norm_t", "normalised_timeseries", "C04", "times since the first"), ("data_mean", "mean_data", "C03", "mean of each dataset"), ("t_median", "median_time", "C04", "median time"), ("t_max", "max_time", "C04", "last time")):
    def _mk3(f, m, t, l):
        @contract(m, "DataStructure::%s()" % m, setup=with_ds())
        def _(c):
            c.returns(c.old(c.this.f(f)), label=l, tags=(t,))
    _mk3(_f, _m, _t, _l)


# ---- the messages of the exceptions
def _exc_setup(cls):
    def f(ex, st):
        lv = LV(("g", "exc"))
        st.mem[lv.key] = Obj(cls, {})
        return {"this": lv, "args": []}
    return f


for _c in ("EmptyDataStructureException", "BadDataFileReadException", "BadDataInputException"):
    @contract(_c + "::what", _c + "::what()", setup=_exc_setup(_c), tags=("C02", "C05", "C14"))
    def _(c):
        # a message (its text is free); that there is one at all is the safety obligation of every function with a result
        if c.mode == "post":
            if not (isinstance(c.ret, Opaque) and c.ret.what == "string"):
                raise Unsupported("a message that is not a literal")
            c.ex.oblige("ensures", "a message is returned", c.post, TRUE, ("C02", "C05", "C14"))
