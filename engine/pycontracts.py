"""Contracts of the Python functions in sacf/sacf.py, and their units."""
import time
import terms as t_
from terms import *
from values import *
from cexec import State, Ex, sig
import pyexec
from pyexec import PyEx, PyFn, Opt, Alt, Str, NONE
from contract import Contract, Ctx
import contracts as K
from contracts import Spec, World, Lags, LagHint, full_result, table, sum_of_squares, default_resolution, suffix

SEL = ("natural", "fast")
WEI = ("fractional", "fractional_squared", "gaussian")
COMBOS = [(s, w) for s in SEL for w in WEI]
SETTINGS = ("min_lag", "max_lag", "lag_resolution", "alpha")


class PyContract:
    """contract of a Python function: `params` are the ones it is about, the others must have their default value"""
    def __init__(self, fname, params, unit, choose, defaults=()):
        self.fname, self.params, self._unit, self.choose, self.defaults = fname, params, unit, choose, dict(defaults)

    def defaulted(self, k, v):
        return k == "self"

    def unit(self, args):
        return self._unit(args)

    def apply(self, ex, st, this, vals):
        c, lv, args = self.choose(vals)
        c.apply(ex, st, lv, args)
        return NONE


def optvar(p):
    return Opt(var("no_" + p, "B"), D(var("new_" + p, "R"), var("new_" + p + ".nan", "B")))


# ---- set_up_correlation
def _setup_setup(ex, st):
    w = World(ex, st)
    cor = w.corr(ex, st)
    return {"this": cor, "args": [optvar(p) for p in SETTINGS], "w": w}


def given(v):
    """(is it given, the value)"""
    if isinstance(v, Opt):
        return not_(v.none), asD(v.v) if v.v is not None else D(rnum(0))
    if v is NONE:
        return FALSE, D(rnum(0))
    return TRUE, asD(v)


def _setup_spec(c):
    for p, v in zip(SETTINGS, c.args):
        g, x = given(v)
        if p == "lag_resolution":
            c.raises("std::invalid_argument", and_(g, or_(x.bad, le(x.v, rnum(0)))), tags=("C06", "C14"))
    for p, v in zip(SETTINGS, c.args):
        g, x = given(v)
        c.sets(c.this.f(p), vite(g, x, asD(c.old(c.this.f(p)))), label="%s is the given value, or stays" % p, tags=("C06",))


SETUP = Contract("set_up_correlation", "SACF.set_up_correlation", _setup_spec, _setup_setup)


# ---- find_correlation
def _find_setup(ex, st):
    env = K.with_corr()(ex, st)
    return env


def corr_hint(ex, st, lv, s, w):
    """the loop over the lag grid of the correlator at lv, with its settings in this state"""
    c = Ctx(None, ex, "none", st, st, lv, [])
    S = Spec(c, lv)
    g = lambda f: asD(ex.read(st, lv.f(f))).v
    return LagHint(lv, Lags(g("min_lag"), g("max_lag"), g("lag_resolution")), S, s, w)


def autohint(s, w):
    def f(ex, st):
        lvs = [LV(k) for k, v in st.mem.items() if k[0] in ("g", "heap") and isinstance(v, Obj) and v.cls == "Correlator"]
        if len(lvs) != 1:
            return None
        try:
            return corr_hint(ex, st, lvs[0], s, w)
        except (Unsupported, AttributeError, KeyError):
            return None
    return f


def find_contract(s, w):
    def spec(c):
        full_result(c, Spec(c, c.this), s, w, ("C17",))
    return Contract("find_correlation[%s,%s]" % (s, w), "SACF.find_correlation", spec, _find_setup)


FIND = {sw: find_contract(*sw) for sw in COMBOS}


def text(v):
    if isinstance(v, Str) and v.text is not None:
        return v.text
    raise Unsupported("unknown function name")


def _corr_lv(v):
    if not isinstance(v, Ptr):
        raise Unsupported("correlator argument")
    return v.lv


def _choose_find(vals):
    k = (text(vals[1]), text(vals[2]))
    if k not in FIND:
        raise Unsupported("unknown function name")
    return FIND[k], _corr_lv(vals[0]), []


PYCONTRACTS = {
    "SACF.set_up_correlation": PyContract("set_up_correlation", ["corr"] + list(SETTINGS), lambda a: "set_up_correlation", lambda vals: (SETUP, _corr_lv(vals[0]), vals[1:])),
    "SACF.find_correlation": PyContract("find_correlation", ["corr", "selection_function", "weight_function"],
                                        lambda a: "find_correlation[%s,%s]" % (text(a["selection_function"]), text(a["weight_function"])), _choose_find),
}


# ---- autocorrelation
class Effective(Spec):
    """the data object with the settings a call ends up with"""
    def __init__(self, c, ds, args):
        self.c, self.ds = c, ds
        g = lambda n: c.old(ds.f(n))
        self.N, self.M = g("N_datasets"), g("M_datapoints")
        if isinstance(self.N, D):
            self.N, self.M = toI(self.N.v), toI(self.M.v)
        self._T, self._ND, self._X = g("norm_t"), g("norm_data"), g("_data")
        self._NR = vec_fn(self.N, sum_of_squares(self.M, self._X, g("data_mean")), "d")
        last = asD(self._T.get(sub(self.M, num(1))))
        self.default = {"min_lag": D(neg(last.v), last.bad), "max_lag": last, "lag_resolution": D(default_resolution(ds)), "alpha": asD(g("t_median"))}
        self.eff = {}
        for p, v in zip(SETTINGS, args):
            gv, x = given(v)
            self.eff[p] = vite(gv, x, self.default[p])
        self.alpha = self.eff["alpha"]


def _auto_setup(ex, st):
    w = World(ex, st)
    me = LV(("g", "self"))
    st.mem[me.key] = Obj("SACF", {"data": Ptr(w.ds)})
    return {"this": me, "args": [optvar(p) for p in SETTINGS] + [var("return_correlator", "B")], "w": w}


def auto_contract(s, w):
    def spec(c):
        ds = c.old(c.this.f("data")).lv
        S = Effective(c, ds, c.args)
        for p, v in zip(SETTINGS, c.args):
            gv, x = given(v)
            if p == "lag_resolution":
                c.raises("std::invalid_argument", and_(gv, or_(x.bad, le(x.v, rnum(0)))), tags=("C06",))
        lo, hi, res = [S.eff[p] for p in ("min_lag", "max_lag", "lag_resolution")]
        for p in ("min_lag", "max_lag"):
            c.requires("a finite " + p, not_(S.eff[p].bad))
        c.requires("a positive length scale", and_(not_(S.alpha.bad), lt(rnum(0), S.alpha.v)))
        if c.mode != "post":
            return
        ex, st = c.ex, c.post
        want = c.args[4]
        G = Lags(lo.v, hi.v, res.v)
        ex.deffacts += G.lemmas()
        nm = c.contract.name
        q, r = c.v("c"), c.v("r")
        value = lambda r, q: S.acf(s, w, r, G.lag(q))

        def rows(v, s_):
            if isinstance(v, Alt):
                for cond, x in ((v.c, v.a), (not_(v.c), v.b)):
                    s2 = s_.copy()
                    s2.assume(cond)
                    if not s2.dead():
                        rows(x, s2)
                return
            x = ex.deepval(v, s_)
            if not isinstance(x, Vec):
                ex.oblige("ensures", "%s: the correlations are lists" % nm, s_, FALSE, ("C13",))
                return
            if isinstance(x.body, Vec):
                ex.oblige("ensures", "%s: a list of lists only for several datasets" % nm, s_, lt(num(1), S.N), ("C13",))
                ex.oblige("ensures", "%s: a row per dataset" % nm, s_, eq(x.len, S.N), ("C13",))
                row, out = x.get(r), le(S.N, r)
                ex.oblige("ensures", "%s: a correlation per lag" % nm, s_, or_(out, eq(row.len, G.L)), ("C13", "C07"))
            else:
                ex.oblige("ensures", "%s: one plain list for one dataset" % nm, s_, eq(S.N, num(1)), ("C13",))
                row, out = x, lt(num(0), r)
                ex.oblige("ensures", "%s: a correlation per lag" % nm, s_, eq(row.len, G.L), ("C13", "C07"))
            for lab, vs, f in veq_goals(row.get(q), value(r, q), "every correlation is the estimator at its lag for its dataset"):
                ex.oblige("ensures", "%s: %s" % (nm, lab), s_, or_(out, le(G.L, q), f), ("C06", "C11", "C13", "C17"))

        def result(ret, st):
            if isinstance(ret, Alt):
                for cond, x in ((ret.c, ret.a), (not_(ret.c), ret.b)):
                    s2 = st.copy()
                    s2.assume(cond)
                    if not s2.dead():
                        result(x, s2)
                return
            if not isinstance(ret, tuple) or len(ret) not in (2, 3):
                ex.oblige("ensures", "%s: returns lags and correlations" % nm, st, FALSE, ("C13",))
                return
            ex.oblige("ensures", "%s: the correlator is returned when asked for" % nm, st, want if len(ret) == 3 else not_(want), ("C13",))
            lags = ex.deepval(ret[0], st)
            if not isinstance(lags, Vec):
                ex.oblige("ensures", "%s: the lags are a list" % nm, st, FALSE, ("C07",))
            else:
                ex.oblige("ensures", "%s: number of lags" % nm, st, eq(lags.len, G.L), ("C07", "C17"))
                for lab, vs, f in veq_goals(lags.get(q), D(G.lag(q)), "the lag grid of the settings in force"):
                    ex.oblige("ensures", "%s: %s" % (nm, lab), st, or_(le(G.L, q), f), ("C06", "C07", "C17"))
            rows(ret[1], st)
            if len(ret) == 3:
                co = ret[2]
                v = ex.read(st, co.lv) if isinstance(co, Ptr) else None
                if not (isinstance(v, Obj) and v.cls == "Correlator"):
                    ex.oblige("ensures", "%s: the third result is the correlator" % nm, st, FALSE, ("C13",))
                    return
                for p in SETTINGS:
                    for lab, vs, f in veq_goals(asD(v.f[p]), S.eff[p], "the returned correlator has the %s in force" % p):
                        ex.oblige("ensures", "%s: %s" % (nm, lab), st, f, ("C06",))
                cd = v.f["correlation_data"].f
                for lab, vs, f in veq_goals(cd["_timeseries"].get(q), D(G.lag(q)), "the returned correlator holds the lags"):
                    ex.oblige("ensures", "%s: %s" % (nm, lab), st, or_(le(G.L, q), f), ("C07",))
                ex.oblige("ensures", "%s: the returned correlator has a column per lag" % nm, st, eq(v.f["num_lag_steps"], G.L), ("C07", "C13"))
                for lab, vs, f in veq_goals(cd["_correlations"].get(add(q, mul(G.L, r))), value(r, q), "the returned correlator holds the correlations"):
                    ex.oblige("ensures", "%s: %s" % (nm, lab), st, or_(le(S.N, r), le(G.L, q), f), ("C11", "C13"))
        result(c.ret, st)
    return Contract("autocorrelation[%s,%s]" % (s, w), "SACF.autocorrelation", spec, _auto_setup)


AUTO = {sw: auto_contract(*sw) for sw in COMBOS}


# ---- construction
def init_contract(nested, errors):
    base = K._ds_spec(nested, errors)

    def setup(ex, st):
        env = K._ds_setup(nested, errors)(ex, st)
        me = LV(("g", "self"))
        st.mem[me.key] = Obj("SACF", {})
        env["self"] = me
        del st.mem[env["this"].key]
        env["this"] = LV(("heap", "none"))
        return env

    def spec(c):
        if c.mode == "pre":
            c2 = c
            c.sets = lambda *a, **k: None
            c.havoc = lambda lv: vec_empty("d")
            c.ensures = lambda *a, **k: None
        base(c)
    c = Contract("SACF(%s%s)" % ("lists" if nested else "list", ",errors" if errors else ""), "SACF.__init__", spec, setup)
    return c


def file_contract():
    base = K.CONTRACTS["DataStructure::DataStructure(conststd::string&)"]

    def setup(ex, st):
        env = base.setup(ex, st)
        me = LV(("g", "self"))
        st.mem[me.key] = Obj("SACF", {})
        env["self"] = me
        env["args"] = [Str(None, st.mem[a.lv.key]) for a in env["args"]]
        del st.mem[env["this"].key]
        env["this"] = LV(("heap", "none"))
        return env

    def spec(c):
        if c.mode == "pre":
            c.sets = lambda *a, **k: None
            c.havoc = lambda lv: vec_empty("d")
            c.ensures = lambda *a, **k: None
        base.spec(c)
    return Contract("SACF(filename)", "SACF.__init__", spec, setup)


INIT = {(n, e): init_contract(n, e) for n in (False, True) for e in (False, True)}
INIT["filename"] = file_contract()


# ---- units
def _find(ex, name):
    cls = ex.globals.get("SACF")
    if cls is None or not hasattr(cls, "node"):
        raise Unsupported("no class SACF")
    f = ex.clsattr(cls.node, name, None)
    if not isinstance(f, PyFn):
        raise Unsupported("SACF.%s is not a function" % name)
    return f


def new_ex(src, drop=None):
    pc = {k: v for k, v in PYCONTRACTS.items() if k != drop}
    return PyEx(src.prog, src.bindings, src.mods, dict(K.CONTRACTS), pc)


def run_py(ex, fn, vals, kw, st):
    args = ex.bind(fn, vals, kw, st)
    rets, thr, fr = ex.run_fn(fn, args, st)
    for s, _ in rets:
        ex.drop(s, fr.fid)
    return rets, thr


def u_setup(src):
    ex = new_ex(src, "SACF.set_up_correlation")

    def run(st, env):
        return run_py(ex, _find(ex, "set_up_correlation"), [Ptr(env["this"])], dict(zip(SETTINGS, env["args"])), st)
    SETUP.verify_with(ex, run)
    return ex


def u_find(src, s, w, default=False):
    ex = new_ex(src, "SACF.find_correlation")
    ex.autohint = autohint(s, w)

    def run(st, env):
        kw = {} if default else {"selection_function": Str(s), "weight_function": Str(w)}
        return run_py(ex, _find(ex, "find_correlation"), [Ptr(env["this"])], kw, st)
    FIND[(s, w)].verify_with(ex, run)
    return ex


def u_auto(src, s, w, default=False):
    ex = new_ex(src, "SACF.autocorrelation")
    ex.autohint = autohint(s, w)

    def run(st, env):
        kw = dict(zip(SETTINGS, env["args"]))
        kw["return_correlator"] = env["args"][4]
        if not default:
            kw.update({"selection_function": Str(s), "weight_function": Str(w)})
        f = _find(ex, "autocorrelation")
        f.bound = Ptr(env["this"])
        return run_py(ex, f, [], kw, st)
    AUTO[(s, w)].verify_with(ex, run)
    return ex


def u_init(src, which):
    ex = new_ex(src)
    c = INIT[which]

    def run(st, env):
        f = _find(ex, "__init__")
        f.bound = Ptr(env["self"])
        if which == "filename":
            return run_py(ex, f, [], {"filename": env["args"][0]}, st)
        return run_py(ex, f, env["args"], {}, st)

    def settle(st, env, r):
        me = ex.read(st, env["self"])
        d = me.f.get("data") if isinstance(me, Obj) else None
        v = ex.read(st, d.lv) if isinstance(d, Ptr) else None
        if not (isinstance(v, Obj) and v.cls == "DataStructure"):
            raise Unsupported("data attribute of SACF")
        return d.lv, r
    c.verify_with(ex, run, settle=settle)
    return ex


def units():
    out = {"set_up_correlation": (u_setup, ("sacf/sacf.py: SACF.set_up_correlation",))}
    for s, w in COMBOS:
        out["find_correlation[%s,%s]" % (s, w)] = (lambda src, s=s, w=w: u_find(src, s, w), ("sacf/sacf.py: SACF.find_correlation",))
        out["autocorrelation[%s,%s]" % (s, w)] = (lambda src, s=s, w=w: u_auto(src, s, w), ("sacf/sacf.py: SACF.autocorrelation",))
    out["autocorrelation[default]"] = (lambda src: u_auto(src, "natural", "fractional", True), ("sacf/sacf.py: SACF.autocorrelation with its default functions",))
    out["find_correlation[default]"] = (lambda src: u_find(src, "natural", "fractional", True), ("sacf/sacf.py: SACF.find_correlation with its default functions",))
    for k, c in INIT.items():
        out[c.name] = (lambda src, k=k: u_init(src, k), ("sacf/sacf.py: SACF.__init__",))
    return out
