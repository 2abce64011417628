"""The Python names of the extension classes: each behaves as the contract of the method it stands for.

The bound callable is read from the pybind11 module's AST on every run; running it through the binding must satisfy the
contract of the documented method (postconditions and frame), so a name bound to another function, a setter bound as a
getter, a constructor with exchanged arguments or a missing keep_alive fails an obligation."""
import time
from terms import *
from values import *
from contract import Contract, Ctx
import contracts as K
import pyexec
import pycontracts as P
from contracts import with_corr, with_ds, DSpec

BYNAME = {c.name: c for c in K.CONTRACTS.values()}

COR_METHODS = ["naturalSelectionFunctionIdx", "fastSelectionFunctionIdx", "deltaT", "findCorrelation", "clearCorrelation", "fractionWeightFunction", "fractionSquaredWeightFunction",
               "gaussianWeightFunction", "getFractionWeights", "getFractionSquaredWeights", "getGaussianWeights", "lag_timeseries", "correlations", "addCorrelationData",
               "cleanCorrelationData", "calculateStandardCorrelation"]
TABLE = [("Correlator", m, "call", m) for m in COR_METHODS]
TABLE += [("Correlator", "normalised_timeseries", "call", "Correlator.normalised_timeseries"), ("Correlator", "values", "call", "Correlator.values")]
for _p, _g in (("max_lag", "MaxLag"), ("min_lag", "MinLag"), ("lag_resolution", "LagResolution"), ("alpha", "Alpha")):
    TABLE += [("Correlator", _p, "get", "get" + _g), ("Correlator", _p, "set", "set" + _g)]
TABLE += [("Correlator", "M_datapoints", "get", "getMDatapoints"), ("Correlator", "N_datasets", "get", "getNDatasets")]
TABLE += [("DataStructure", "data", "call", "data_2d"), ("DataStructure", "errors", "call", "err_2d"), ("DataStructure", "timeseries", "call", "timeseries"),
          ("DataStructure", "normalised_timeseries", "call", "normalised_timeseries"), ("DataStructure", "normalised_data", "call", "normalised_data_2d"),
          ("DataStructure", "mean_data", "get", "mean_data"), ("DataStructure", "median_time", "get", "median_time"), ("DataStructure", "max_time", "get", "max_time")]


# contracts of names without a method of their own
def _size(f):
    def spec(c):
        c.returns(getattr(DSpec(c), f), tags=("C01",))
    return spec


def _record(f):
    def spec(c):
        c.returns(c.old(c.this.f(f)), tags=("C14", "C11" if f == "correlation" else "C10" if f == "weights" else "C08", "C09" if f not in ("correlation", "weights") else "C11"))
    return spec


def _record_set(c):
    c.sets(c.this.f("k"), c.argd(0), tags=("C11",))


def _record_setup(*args):
    def f(ex, st):
        w = K.World(ex, st)
        w.corr(ex, st)
        lv = w.iterator(ex, st)
        return {"this": lv, "args": [a() for a in args], "w": w}
    return f


OWN = {"DataStructure.N_datasets": Contract("DataStructure.N_datasets", "", _size("N"), with_ds()),
       "DataStructure.M_datapoints": Contract("DataStructure.M_datapoints", "", _size("M"), with_ds()),
       "CorrelationIterator.k=": Contract("CorrelationIterator.k=", "", _record_set, _record_setup(lambda: K.dvar("value")))}
TABLE += [("DataStructure", "N_datasets", "get", "DataStructure.N_datasets"), ("DataStructure", "M_datapoints", "get", "DataStructure.M_datapoints"), ("CorrelationIterator", "k", "set", "CorrelationIterator.k=")]
for _f in ("correlation", "k", "shifted_timeseries", "selection_indices", "delta_t", "weights"):
    n = "CorrelationIterator." + _f
    OWN[n] = Contract(n, "", _record(_f), _record_setup())
    TABLE.append(("CorrelationIterator", _f, "get", n))


def u_bind(src, cls, name, how, cname):
    c0 = BYNAME.get(cname) or OWN[cname]
    c = Contract("%s.%s%s" % (cls, name, " =" if how == "set" else ""), c0.sig, c0.spec, c0.setup)
    ex = P.new_ex(src)

    def run(st, env):
        o = Ptr(env["this"])
        r = VOID
        if how == "set":
            ex.setattr(o, name, env["args"][0], st)
        else:
            r = ex.getattr(o, name, st)
            if how == "call":
                r = ex.apply(r, env["args"], {}, st)
        thrown, ex.pend = ex.pend, []
        return [(st, r)], thrown
    c.verify_with(ex, run, settle=lambda st, env, r: (env["this"], deep(ex, st, r)))
    ex.called.discard("contract:" + c.name)
    return ex


def deep(ex, st, r):
    """lists returned to Python are values"""
    return ex.deepval(r, st)


# constructors
CTORS = {"CorrelationIterator": ("CorrelationIterator", "CorrelationIterator"), "Correlator": ("Correlator", "Correlator")}
for _n in (False, True):
    for _e in (False, True):
        _c = "DataStructure(%s)" % ("lists" if _n else "list") + ("+errors" if _e else "")
        CTORS[_c] = ("DataStructure", _c)
CTORS["DataStructure(filename)"] = ("DataStructure", "DataStructure(filename)")


def u_ctor(src, cls, cname):
    c0 = BYNAME[cname]

    def setup(ex, st):
        env = c0.setup(ex, st)
        del st.mem[env["this"].key]
        env["this"] = LV(("heap", "none"))
        if cname == "DataStructure(filename)":
            env["args"] = [pyexec.Str(None, st.mem[a.lv.key]) for a in env["args"]]
        return env

    def spec(c):
        if c.mode == "pre":
            c.sets = lambda *a, **k: None
            c.havoc = lambda lv: D(var("unused", "R")) if cls == "Correlator" else vec_empty("d")
            c.ensures = lambda *a, **k: None
        c0.spec(c)
    c = Contract("Python %s" % cname, c0.sig, spec, setup)
    ex = P.new_ex(src)
    box = {}

    def run(st, env):
        b = ex.b.classes.get(cls)
        if b is None:
            raise Unsupported("no Python class " + cls)
        box["r"] = ex.cnew(b, env["args"], st)
        thrown, ex.pend = ex.pend, []
        return [(st, box["r"])], thrown

    def settle(st, env, r):
        return r.lv, VOID
    c.verify_with(ex, run, settle=settle)
    if cls == "Correlator":
        raw = [x for x in src.prog.fields("Correlator") if x["name"] == "ds" and x["type"]["qualType"].replace(" ", "") == "DataStructure*"]
        if not raw:
            raise Unsupported("how a correlator refers to its data object")
        kept = any(key == box["r"].lv.key and k == (1, 2) for key, k in getattr(ex, "kept", []))
        ex.where = "Python Correlator"
        ex.oblige("ownership", "the data object lives as long as the Python correlator that points to it (keep_alive<1, 2>)", State_(), B(kept), ("C14",))
    return ex


def State_():
    from cexec import State
    return State((), ())


def u_exceptions(src):
    ex = P.new_ex(src)
    ex.where = "datastructure module"
    for n in ("EmptyDataStructureException", "BadDataFileReadException", "BadDataInputException"):
        got = [v for k, v in ex.b.exceptions.items() if k.split("::")[-1] == n]
        ex.oblige("ensures", "%s reaches Python as the exception of that name" % n, State_(), B(got == [n]), ("C02", "C05") if n == "BadDataFileReadException" else ("C02",))
    return ex


def units():
    out = {}
    for cls, name, how, cname in TABLE:
        out["Python %s.%s%s" % (cls, name, " =" if how == "set" else "")] = (lambda src, a=(cls, name, how, cname): u_bind(src, *a), "binding of %s.%s" % (cls, name))
    for k, (cls, cname) in CTORS.items():
        out["Python " + k] = (lambda src, a=(cls, cname): u_ctor(src, *a), "binding of the constructor of " + cls)
    out["Python exceptions"] = (u_exceptions, "registered exceptions")
    return out
