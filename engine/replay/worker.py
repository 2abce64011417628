"""Runs under the repository's interpreter (PyPy) against freshly built extension modules.

Each property has an executable form of its contract (an oracle written from the property text) and a generator of
cases.  It is used (a) on every run to validate what the proofs assume about the environment (bindings, STL, floating
point) and (b) to look for a concrete failing input when an obligation is not discharged.

usage: worker.py PROP SEED BUDGET_S OUT.json CUR.json      or      worker.py --replay CASE.json
"""
import gc, json, math, os, random, signal, sys, time
from fractions import Fraction

NAN = float("nan")
EPS = 2.220446049250313e-16
SCRATCH = os.environ.get("SACF_SCRATCH", ".")

from sacf import SACF
from sacf.datastructure import DataStructure
from sacf.correlator import Correlator, CorrelationIterator
import sacf.datastructure as dsmod

SEL = ("natural", "fast")
WF = ("fractional", "gaussian", "fractional_squared")
WMETH = {"fractional": "getFractionWeights", "gaussian": "getGaussianWeights",
         "fractional_squared": "getFractionSquaredWeights"}


class Bad(Exception):
    pass


def isnan(x):
    return x != x


def same(a, b):
    return (isnan(a) and isnan(b)) or a == b


def same_list(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def same_rows(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(same_list(x, y) for x, y in zip(a, b))


def need(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)


# ---------------------------------------------------------------- reference (from the property texts)
def ref_nearest(tn, x):
    best, bd, amb = 0, abs(tn[0] - x), False
    for m in range(1, len(tn)):
        d = abs(tn[m] - x)
        if abs(d - bd) <= 1e-9 * (abs(x) + tn[-1] + d) and d != bd:
            amb = True
        if d <= bd:
            best, bd = m, d
    return best, amb


def exact(*vals):
    """every sum and difference of a few of these binary fractions is exact in double precision"""
    den = mag = 1
    for v in vals:
        n, d = abs(float(v)).as_integer_ratio()
        if d > den:
            mag, den = mag * (d // den), d
        mag = max(mag, n * (den // d))
    return mag < 2 ** 49


def ref_select(tn, k, kind, t0=None):
    """(pairs, distances, ambiguous) for normalised times tn; given the first time, near ties and near ends count as decided when all arithmetic on them is exact"""
    sure = t0 is not None and exact(t0, k, *tn)
    last, n, amb = tn[-1], 0, False
    for x in tn:
        if abs(x + k - last) <= 1e-9 * (abs(k) + last) and x + k != last:
            amb = True
        if (x + k > last) if kind == "natural" else (x + k >= last):
            break
        n += 1
    if kind == "natural":
        sel = []
        for i in range(n):
            s, a = ref_nearest(tn, tn[i] + k)
            amb = amb or a
            sel.append(s)
    else:
        sel = []
        if n:
            s, a = ref_nearest(tn, tn[0] + k)
            amb = amb or a
            sel = [s + i for i in range(min(n, len(tn) - s))]
    return sel, [abs(tn[s] - (tn[i] + k)) for i, s in enumerate(sel)], amb and not sure


def ref_weight(d, a, wf):
    q = d / a
    if wf == "fractional":
        return 1.0 / (1.0 + q)
    if wf == "fractional_squared":
        return 1.0 / (1.0 + q * q)
    return math.exp(-q * q / 2.0)


def ref_grid(mn, mx, res, limit=2000000):
    """(lags, ambiguous)"""
    out, amb, k, seen0, crossed = [], False, mn, False, False
    n = 0
    while True:
        if abs(k - mx) <= 1e-9 * (abs(mx) + abs(mn)) and k != mx:
            amb = True
        if k != 0 and abs(k) <= 1e-9 * (abs(mn) + res):
            amb = True
        if not (k <= mx):
            break
        if k == 0:
            seen0 = True
        if k > 0 and not seen0:
            out.append(0.0)
            seen0 = True
        out.append(k)
        n += 1
        if n > limit:
            raise Bad("reference grid too long")
        k = k + res
    return out, amb


def ref_mean(s):
    v = [x for x in s if not isnan(x)]
    return math.fsum(v) / len(v)


def ref_defaults(t):
    tn = [x - t[0] for x in t]
    n = len(tn)
    gaps = [b - a for a, b in zip(tn, tn[1:]) if b - a > 0]
    med = (tn[n // 2 - 1] + tn[n // 2]) / 2 if n % 2 == 0 else tn[n // 2]
    return {"max": tn[-1], "min": -tn[-1], "res": min(gaps) if gaps else None, "alpha": med}


def settings(case):
    d = ref_defaults(case["t"])
    return {k: (d[k] if case.get(k) is None else case[k]) for k in ("min", "max", "res", "alpha")}


def ref_tol(s):
    m = ref_mean(s)
    nrm = math.fsum((x - m) ** 2 for x in s)
    if not nrm > 0:
        return None, m, nrm
    big = max(abs(x) for x in s)
    return 1e-11 + 64 * len(s) * EPS * big * math.sqrt(len(s)) / math.sqrt(nrm), m, nrm


def ref_corr(s, m, nrm, sel, w):
    return math.fsum(w[i] * (s[i] - m) * (s[j] - m) for i, j in enumerate(sel)) / nrm


def close(a, b, tol):
    return (a == b) or abs(a - b) <= tol


# ---------------------------------------------------------------- building blocks
def make(case, cls=SACF):
    t, data, err = case["t"], case["data"], case.get("err")
    if case.get("form") == "1d":
        data, err = data[0], (err[0] if err else err)
    if cls is SACF:
        if case.get("kw"):
            return SACF(timeseries=t, values=data, errors=err)
        return SACF(t, data) if err is None else SACF(t, data, err)
    return DataStructure(t, data) if err is None else DataStructure(t, data, err)


def call(s, case, **kw):
    a = {}
    for k, name in (("min", "min_lag"), ("max", "max_lag"), ("res", "lag_resolution"), ("alpha", "alpha")):
        if case.get(k) is not None:
            a[name] = case[k]
    if case.get("sel"):
        a["selection_function"] = case["sel"]
    if case.get("wf"):
        a["weight_function"] = case["wf"]
    a.update(kw)
    return s.autocorrelation(**a)


def rows_of(case, c):
    return [list(c)] if len(case["data"]) == 1 else [list(r) for r in c]


def check_grid(case, lags):
    st = settings(case)
    if st["res"] is None:
        return
    ref, amb = ref_grid(st["min"], st["max"], st["res"])
    if amb and not exact(st["min"], st["max"], st["res"], st["res"] * len(ref)):
        return
    need(len(lags) == len(ref), "number of lags is %d, expected %d", len(lags), len(ref))
    for i, (a, b) in enumerate(zip(lags, ref)):
        need(close(a, b, 1e-12 * (abs(st["min"]) + abs(b))), "lag %d is %r, expected %r", i, a, b)


def corners(n):
    """positions where a store of n entries that grows by doubling or in blocks is most likely to go wrong"""
    out = {0, 1, n // 2, n - 2, n - 1}
    p = 2
    while p <= n:
        out |= {p - 2, p - 1, p, p + p // 2 - 1, p + p // 2}
        p *= 2
    return {i for i in out if 0 <= i < n}


def check_values(case, lags, rows, only=None):
    st = settings(case)
    t = case["t"]
    tn = [x - t[0] for x in t]
    need(len(rows) == len(case["data"]), "%d rows for %d datasets", len(rows), len(case["data"]))
    refs = [ref_tol(s) for s in case["data"]]
    for j, r in enumerate(rows):
        need(len(r) == len(lags), "row %d has %d values for %d lags", j, len(r), len(lags))
    for i, k in enumerate(lags):
        if only is not None and i not in only:
            continue
        sel, d, amb = ref_select(tn, k, case.get("sel") or "natural", t[0])
        if amb:
            continue
        w = [ref_weight(x, st["alpha"], case.get("wf") or "fractional") for x in d]
        for j, s in enumerate(case["data"]):
            tol, m, nrm = refs[j]
            if tol is None or tol > 0.05:
                continue
            ref = ref_corr(s, m, nrm, sel, w)
            need(close(rows[j][i], ref, tol), "dataset %d, lag %r: correlation %r, expected %r", j, k, rows[j][i], ref)


# ---------------------------------------------------------------- generators
def dy(rng, lo, hi, den=8):
    return rng.randint(lo * den, hi * den) / float(den)


def gen_times(rng, m=None, dup=False, exact=None):
    if m is None:
        m = rng.choice([2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 9, 12, 17])
    if exact is None:
        exact = rng.random() < 0.75
    t0 = rng.choice([0.0, 0.0, 0.5, -3.0, -100.25, 1000.0, 1048576.0, 2450000.5, -2450000.5])
    style = rng.randrange(6)
    t = [t0]
    for _ in range(m - 1):
        if style == 0:
            g = 1.0
        elif style == 1:
            g = rng.choice([1, 1, 1, 2, 3, 10]) / 2.0
        elif style == 2:
            g = dy(rng, 0, 3, 8) + 0.125
        elif style == 3:
            g = rng.choice([0.25, 0.5, 0.75, 1.0, 7.0])
        elif style == 4:
            g = rng.choice([0.125, 4.0])
        else:
            g = dy(rng, 0, 2, 64) + 0.0625
        if not exact:
            g = g * (0.7 + 0.6 * rng.random())
        if dup and rng.random() < 0.3:
            g = 0.0
        t.append(t[-1] + g)
    if not dup:
        for a, b in zip(t, t[1:]):
            if not b > a:
                return gen_times(rng, m, dup, exact)
    return t


def gen_series(rng, m, nan=False, const_ok=False):
    style = rng.randrange(7)
    off = rng.choice([0.0, 0.0, 0.0, 1.0, -7.5, 1e4, 1e6, 1e9, 1 + 2.0 ** 27])
    sc = rng.choice([1.0, 1.0, 1e-3, 37.5, 1e5])
    if style == 0:
        s = [float(rng.randint(-3, 3)) for _ in range(m)]
    elif style == 1:
        s = [rng.gauss(0, 1) for _ in range(m)]
    elif style == 2:
        s = [dy(rng, -4, 4, 16) for _ in range(m)]
    elif style == 3:
        s = [math.sin(1.3 * i) + 0.1 * i for i in range(m)]
    elif style == 4:
        s = [rng.random() for _ in range(m)]
    elif style == 5:
        s = [1.0 if i % 2 else -1.0 for i in range(m)]
    else:
        s = [float(i) for i in range(m)]
    s = [x * sc + off for x in s]
    if not const_ok and m > 1 and max(s) == min(s):
        s[rng.randrange(m)] += 1.0
    if nan:
        p = rng.choice([0.0, 0.2, 0.5, 0.9])
        keep = rng.randrange(m)
        s = [NAN if (rng.random() < p and i != keep) else x for i, x in enumerate(s)]
        if rng.random() < 0.2:  # ends
            for i in (0, m - 1):
                if i != keep:
                    s[i] = NAN
    return s


def gen_data(rng, nan=False, m=None, nd=None, err=None, dup=False, const_ok=False):
    t = gen_times(rng, m, dup)
    m = len(t)
    if nd is None:
        nd = rng.choice([1, 1, 1, 2, 2, 3, 5])
    c = {"t": t, "data": [gen_series(rng, m, nan, const_ok) for _ in range(nd)]}
    if err is None:
        err = rng.random() < 0.3
    c["err"] = [[rng.choice([0.5, 0.25, 1.0, NAN, 2.0, 3.5, 0.0, rng.random()]) for _ in range(m)]
                for _ in range(nd)] if err else None
    if nd == 1 and rng.random() < 0.7:
        c["form"] = "1d"
    if rng.random() < 0.3:
        c["kw"] = True
    return c


def gen_lags(rng, c):
    d = ref_defaults(c["t"])
    span = d["max"]
    res = d["res"] or 1.0
    mode = rng.randrange(12)
    if mode == 0:
        pass
    elif mode == 1:
        c["max"] = rng.choice([0.0, 0, span / 2, dy(rng, 0, 1 + int(span)), span * 2, dy(rng, 0, 1 + int(span)) - 0.0625])
    elif mode == 2:
        c["min"] = rng.choice([0.0, 0, -span / 2, span / 4, 0.125, -0.125, -2 * span, -dy(rng, 0, 1 + int(span))])
    elif mode == 3:
        c["res"] = rng.choice([res / 2, res * 2, res * 1.5, 0.75, 0.3125, span, span * 3, 1])
    elif mode == 4:
        a = dy(rng, -6, 6)
        c["min"], c["max"], c["res"] = a, a + dy(rng, 0, 6), rng.choice([0.125, 0.25, 0.375, 1.0, 2.5, 5.0])
    elif mode == 5:  # below zero only
        c["max"] = -dy(rng, 0, 2) - 0.125
        c["min"] = c["max"] - dy(rng, 0, 5)
        c["res"] = rng.choice([0.125, 0.5, 0.375])
    elif mode == 6:  # above zero only
        c["min"] = dy(rng, 0, 2) + 0.125
        c["max"] = c["min"] + dy(rng, 0, 5)
        c["res"] = rng.choice([0.125, 0.5, 0.375])
    elif mode == 7:  # empty
        c["min"], c["max"] = 2.0, 1.0
        c["res"] = 0.5
    elif mode == 8:  # single lag
        a = dy(rng, -3, 3)
        c["min"] = c["max"] = a
        c["res"] = 1.0
    elif mode == 9:
        c["min"], c["max"], c["res"] = -span - 1.0, span + 3.0, max(res, span / 64.0) + 0.0625
    elif mode == 10:
        c["min"], c["max"], c["res"] = 0, int(span) + 1, 1
    else:
        c["max"], c["res"] = span, max(res / 4, span / 128.0)
    if rng.random() < 0.4:
        c["alpha"] = rng.choice([0.1, 0.5, 1, 3.7, 1e3, 1e-3, d["alpha"], dy(rng, 0, 9) + 0.0625])
    s = {k: (d[k] if c.get(k) is None else c[k]) for k in ("min", "max", "res")}
    if s["res"] is None or not s["res"] > 0:
        c["res"] = s["res"] = 1.0
    if (s["max"] - s["min"]) / s["res"] > 700:
        c["res"] = math.ldexp(1.0, math.frexp((s["max"] - s["min"]) / 300.0)[1])
    return c


def gen_fn(rng, c):
    c["sel"], c["wf"] = rng.choice(SEL), rng.choice(WF)
    if rng.random() < 0.25:
        c["sel"], c["wf"] = "natural", "fractional"
    if rng.random() < 0.1:
        c["sel"] = c["wf"] = None
    return c


def big_cases(quick=True):
    """large sizes: many points, many lags, many datasets"""
    out = []
    out.append({"t": [float(i) for i in range(5)], "data": [[1.0, 3.0, -2.0, 0.5, 7.0]], "max": 30000.0, "min": -40000.0, "res": 1.0})
    out.append({"t": [float(i) for i in range(5)], "data": [[1.0, 3.0, -2.0, 0.5, 7.0], [0., 1., 5., 2., -9.]], "max": 5.0, "min": -5.0,
                "res": 2.0 ** -11})
    for sel, wf in ((None, None), ("fast", "gaussian"), ("natural", "fractional_squared")):
        out.append({"t": [float(i) for i in range(5)], "data": [[1.0, 3.0, -2.0, 0.5, 7.0], [0.5, 1., 5., 2., -9.]], "max": 3.75, "min": -3.75, "res": 2.0 ** -9, "sel": sel, "wf": wf})
        out.append({"t": [float(i) for i in range(5)], "data": [[1.0, 3.0, -2.0, 0.5, 7.0], [0.5, 1., 5., 2., -9.]], "max": 3.75, "min": -3.75, "res": 2.0 ** -6, "sel": sel, "wf": wf})
    out.append({"t": [float(i) for i in range(3)], "data": [[1.0, 3.0, -2.0], [0., 1., 5.]], "max": 700.0, "min": -700.0,
                "res": 1.0, "sel": "fast", "wf": "gaussian"})
    out.append({"t": [i + (i % 7) / 16.0 for i in range(700)], "data": [[math.sin(i / 9.0) + 3 for i in range(700)]], "max": 12.0,
                "min": -9.0, "res": 0.75})
    out.append({"t": [i * 0.5 for i in range(6)], "data": [[((i * 7 + j * 3) % 11) * 0.5 for i in range(6)] for j in range(40)]})
    out.append({"t": [i + (i % 5) / 8.0 for i in range(3000)], "data": [[math.cos(i / 9.0) + 3 for i in range(3000)]], "max": 2998.0,
                "min": 2990.0, "res": 0.75, "sel": "natural", "wf": "gaussian"})
    return out


def large_cases():
    """many points, few lags, every selection and weight function"""
    out = []
    for n, (m, sel, wf) in enumerate([(70, "fast", "fractional_squared"), (135, "natural", "gaussian"), (260, "fast", "gaussian"), (300, "natural", "fractional_squared"),
                                      (515, "natural", "fractional"), (1030, "fast", "fractional"), (1030, "natural", "gaussian"), (2050, "natural", "fractional"),
                                      (4100, "fast", "gaussian"), (2050, None, None)]):
        r = [1.5, 40.25, 0.75][n % 3]
        out.append({"t": [3.0 + i + (i % 7) / 16.0 for i in range(m)], "data": [[math.sin(i / 9.0) + 3 + (i % 5) * 0.25 for i in range(m)], [float((i * i) % 17) for i in range(m)]][:1 + n % 2],
                    "sel": sel, "wf": wf, "min": -r, "max": r, "res": r})
    return out


def huge_case():
    m = 70000
    return {"t": [i + (i % 7) / 16.0 for i in range(m)], "data": [[math.sin(i / 9.0) + 3 + (i % 5) * 0.25 for i in range(m)]], "sel": "fast", "wf": "gaussian", "min": 1.5, "max": 1.5, "res": 1.0}


def std_directed():
    """hand-picked corner cases used by several properties"""
    out = []
    irr = [0.0, 1.0, 1.5, 4.0, 4.25, 9.0]
    dat = [[1.0, -2.0, 0.5, 3.0, 7.0, -1.0], [2.0, 2.5, -3.0, 0.0, 1.0, 9.0], [0.0, 0.0, 0.0, 1.0, 0.0, 0.0]]
    for sel in SEL:
        for wf in WF:
            for v in ((-999.0, -1.0, 999.0, 9999.0), (-9999.0, 99.999, -99.0, 1e20), (-1e9, 1e-30, -1e-20, 2.0 ** 40)):
                out.append({"t": irr, "data": [[1.5, v[0], 0.25, 7.0, -3.0, 2.0], [v[1], 2.0, 0.0, 5.0, 1.0, 0.5], [0.5, 0.25, 3.0, v[2], 2.0, 1.0], [-2.0, 1.0, 4.0, 0.0, 0.0, v[3]]], "sel": sel, "wf": wf, "min": -1.25, "max": 2.5, "res": 0.625})
            out.append({"t": irr, "data": [[x * 2.0 ** -40 for x in dat[0]], [x * 2.0 ** 100 for x in dat[1]], [x * 2.0 ** -100 + 2.0 ** -80 for x in dat[0]]], "sel": sel, "wf": wf, "min": -1.25, "max": 2.5, "res": 0.625})
            out.append({"t": [99.0, 999.0, 9999.0, 99999.0], "data": dat[:2] and [dat[0][:4]], "sel": sel, "wf": wf, "min": -900.0, "max": 9000.0, "res": 4500.0})
            out.append({"t": [x * 2.0 ** -30 for x in irr], "data": dat[:1], "sel": sel, "wf": wf, "min": -2.0 ** -30, "max": 2.0 ** -29, "res": 2.0 ** -31})
            out.append({"t": [x * 2.0 ** 40 - 2.0 ** 45 for x in irr], "data": dat[:2], "sel": sel, "wf": wf, "min": -2.0 ** 40, "max": 2.0 ** 41, "res": 2.0 ** 39})
            out.append({"t": irr, "data": dat, "sel": sel, "wf": wf})
            out.append({"t": [x + 1000.5 for x in irr], "data": dat[:1], "form": "1d", "sel": sel, "wf": wf, "res": 0.375, "alpha": 0.7})
            out.append({"t": irr, "data": dat, "sel": sel, "wf": wf, "min": 0.5, "max": 9.0, "res": 0.5})
            out.append({"t": irr, "data": dat, "sel": sel, "wf": wf, "min": -3.0, "max": -0.25, "res": 0.25})
            out.append({"t": irr, "data": dat, "sel": sel, "wf": wf, "min": -0.3, "max": 0.4, "res": 0.5})
            out.append({"t": irr, "data": dat[:2], "sel": sel, "wf": wf, "min": 3.0, "max": 2.0})
            out.append({"t": irr, "data": dat[:1], "sel": sel, "wf": wf, "min": 0.0, "max": 0.0})
            out.append({"t": irr, "data": [[1e9 + x for x in dat[0]], dat[1]], "sel": sel, "wf": wf})
            out.append({"t": [0.0, 2.0], "data": [[1.0, 3.0]], "sel": sel, "wf": wf})
            # the first eligible pair beyond the samples, ties, lags past either end
            out.append({"t": [0.0, 1.0, 2.0, 4.0, 8.0], "data": [[1.0, 3.0, -4.0, 2.5, 0.25]], "sel": sel, "wf": wf, "min": -9.0, "max": 9.0, "res": 0.5})
            out.append({"t": [0.0, 5.0, 5.25, 5.5, 20.0], "data": [[1.0, 3.0, -4.0, 2.5, 0.25]], "sel": sel, "wf": wf, "min": -21.0, "max": 21.0, "res": 0.625})
    return out


# ---------------------------------------------------------------- C01
def p01_gen(rng):
    return gen_data(rng, nan=rng.random() < 0.5, m=rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 16, 33]), const_ok=True, dup=rng.random() < 0.2)


def p01(c):
    for cls in (SACF, DataStructure):
        t = list(c["t"])
        o = make(c, cls)
        d = o.data if cls is SACF else o
        need(same_list(d.timeseries(), t), "timeseries() is %r", list(d.timeseries()))
        got = [list(r) for r in d.data()]
        need(len(got) == len(c["data"]) and all(same_list(a, b) for a, b in zip(got, c["data"])), "data() is %r", got)
        got = [list(r) for r in d.errors()]
        exp = c.get("err") or []
        need(len(got) == len(exp) and all(same_list(a, b) for a, b in zip(got, exp)), "errors() is %r", got)
        need(d.N_datasets == len(c["data"]), "N_datasets is %r", d.N_datasets)
        need(d.M_datapoints == len(t), "M_datapoints is %r", d.M_datapoints)
        k = Correlator(d)
        got = [list(r) for r in k.values()]
        need(len(got) == len(c["data"]) and all(same_list(a, b) for a, b in zip(got, c["data"])), "values() is %r", got)
        need(k.M_datapoints == len(t) and k.N_datasets == len(c["data"]), "correlator dimensions wrong")


def p01_directed():
    out = []
    for m in (1, 2, 5):
        for nd in (1, 2, 3):
            for e in (0, 1):
                c = {"t": [1.0 + i for i in range(m)], "data": [[10.0 * j + i for i in range(m)] for j in range(nd)],
                     "err": [[0.5 + 10 * j + i for i in range(m)] for j in range(nd)] if e else None}
                out.append(c)
                if nd == 1:
                    out.append(dict(c, form="1d"))
                if m > 1:
                    d = json.loads(json.dumps(c))
                    d["data"][0][0] = NAN
                    out.append(d)
    out.append({"t": [float(i) for i in range(700)], "data": [[j + i / 7.0 for i in range(700)] for j in range(9)]})
    out.append({"t": [0.0, 1.0], "data": [[0.0, -0.0]], "err": [[0.0, 0.0]]})
    return out + size_cases()


def size_cases():
    """sizes beyond every small integer type"""
    out = []
    for nd, m, es in ((140, 2, (0, 1)), (300, 3, (0, 1)), (2, 300, (0, 1)), (1, 33000, (1,)), (1, 70000, (1,)), (33000, 1, (0,))):
        for e in es:
            out.append({"t": [float(i) for i in range(m)], "data": [[(j * 131 + i * 7) % 1009 / 4.0 for i in range(m)] for j in range(nd)],
                        "err": [[(j * 17 + i * 3) % 211 / 8.0 for i in range(m)] for j in range(nd)] if e else None})
    return out


# ---------------------------------------------------------------- C02
def p02_expect(t, v, e):
    two = any(isinstance(x, list) for x in v)
    vs = v if two else [v]
    if not t or not any(vs):
        return "EmptyDataStructureException"
    if any(len(s) != len(t) for s in vs):
        return "BadDataInputException"
    if e is not None and len(e):
        es = e if isinstance(e[0], list) else [e]
        if any(len(s) != len(t) for s in es) or len(es) != len(vs):
            return "BadDataInputException"
    return None


def p02(c):
    t, v, e = c["t"], c["v"], c["e"]
    exp = p02_expect(t, v, e)
    for f in (lambda: DataStructure(t, v) if e is None else DataStructure(t, v, e),
              lambda: SACF(t, v) if e is None else SACF(t, v, e)):
        try:
            o = f()
            got = None
        except Exception as ex:
            got = type(ex).__name__
        need(got == exp, "construction gave %s, expected %s", got or "an object", exp or "an object")
        if got is None:
            d = o.data if isinstance(o, SACF) else o
            need(list(d.timeseries()) == t, "times changed")
            need([list(r) for r in d.data()] == (v if isinstance(v[0], list) else [v]), "values changed")
            need(d.M_datapoints == len(t), "M changed")


def p02_directed():
    out = []
    ser = lambda n, b: [b + float(i) for i in range(n)]
    shapes = [[a] for a in range(4)] + [[a, b] for a in range(4) for b in range(4)] + [[2, 2, 2], [1, 2, 3], [3, 3, 0], [3, 2, 1], [4, 1, 1], [1, 1, 4], [2, 2, 3, 1], [1, 3, 2]]
    for nt in range(5):
        t = ser(nt, 0.0)
        for nv in range(7):
            out.append({"t": t, "v": ser(nv, 5.0), "e": None})
            for ne in range(7):
                out.append({"t": t, "v": ser(nv, 5.0), "e": ser(ne, 0.5)})
        for sv in shapes:
            v = [ser(n, 10.0 * (i + 1)) for i, n in enumerate(sv)]
            out.append({"t": t, "v": v, "e": None})
            out.append({"t": t, "v": v, "e": []})
            for se in shapes:
                if sum(sv) and (sum(sv) % max(nt, 1) == 0 or sum(se) == sum(sv) or len(se) == 1):
                    out.append({"t": t, "v": v, "e": [ser(n, 0.25) for n in se]})
    return [c for c in out if not (c["v"] == [] and c["e"] is not None and c["e"] and isinstance(c["e"][0], list))]


def p02_gen(rng):
    nt = rng.randint(1, 9)
    good = rng.random() < 0.3
    L = lambda: nt if (good or rng.random() < 0.6) else rng.choice([0, 1, nt - 1, nt + 1, 2 * nt, rng.randint(0, 12)])
    ser = lambda: [rng.choice([1.0, 2.0, 3.5]) + i for i in range(L())]
    if rng.random() < 0.4:
        return {"t": [float(i) for i in range(nt)], "v": ser(), "e": ser() if rng.random() < 0.6 else None}
    nd = rng.randint(1, 4)
    ne = nd if (good or rng.random() < 0.6) else rng.randint(1, 5)
    v = [ser() for _ in range(nd)]
    e = [ser() for _ in range(ne)] if rng.random() < 0.6 else None
    if rng.random() < 0.3 and nd > 1:  # total preserved, shape wrong
        i, j = rng.sample(range(nd), 2)
        if v[i]:
            v[j] = v[j] + [9.0]
            v[i] = v[i][:-1]
    if e and rng.random() < 0.3 and len(e) > 1 and e[0]:
        e[1] = e[1] + [9.0]
        e[0] = e[0][:-1]
    return {"t": [float(i) for i in range(nt)], "v": v, "e": e}


# ---------------------------------------------------------------- C03
def p03(c):
    d = make(c, DataStructure)
    mean, norm = list(d.mean_data), [list(r) for r in d.normalised_data()]
    need(len(mean) == len(c["data"]), "mean_data has %d entries", len(mean))
    need(len(norm) == len(c["data"]), "normalised_data has %d rows", len(norm))
    for j, s in enumerate(c["data"]):
        m = ref_mean(s)
        tol = 4 * EPS * len(s) * max(abs(x) for x in s if not isnan(x)) + 1e-300
        need(close(mean[j], m, tol), "mean of dataset %d is %r, expected %r", j, mean[j], m)
        need(len(norm[j]) == len(s), "normalised row %d has %d values", j, len(norm[j]))
        for i, x in enumerate(s):
            if isnan(x):
                need(isnan(norm[j][i]), "normalised value [%d][%d] is %r, expected nan", j, i, norm[j][i])
            else:
                need(close(norm[j][i], x - m, tol), "normalised value [%d][%d] is %r, expected %r", j, i, norm[j][i], x - m)


def p03_gen(rng):
    return gen_data(rng, nan=rng.random() < 0.8, m=rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 31]), const_ok=True, dup=rng.random() < 0.2)


def p03_directed():
    out = []
    base = [[1.0, 4.0, 9.5, -3.0], [100.0, 0.0, 7.0, 2.5], [-5.0, -5.0, -5.0, 3.0]]
    for nd in (1, 2, 3):
        out.append({"t": [0.0, 1.0, 2.0, 3.0], "data": base[:nd]})
        for j in range(nd):
            for mask in range(1, 15):
                d = [list(r) for r in base[:nd]]
                for i in range(4):
                    if mask >> i & 1:
                        d[j][i] = NAN
                out.append({"t": [0.0, 1.0, 2.0, 3.0], "data": d})
    return out + p01_directed()


# ---------------------------------------------------------------- C04
def p04(c):
    d = make(c, DataStructure)
    t = c["t"]
    tn = [x - t[0] for x in t]
    need(same_list(d.normalised_timeseries(), tn), "normalised_timeseries() is %r", list(d.normalised_timeseries()))
    need(d.max_time == t[-1], "max_time is %r", d.max_time)
    med = ref_defaults(t)["alpha"]
    need(close(d.median_time, med, 1e-12 * abs(med)), "median_time is %r, expected %r", d.median_time, med)
    need(same_list(Correlator(d).normalised_timeseries(), tn), "correlator normalised_timeseries wrong")


def p04_gen(rng):
    return gen_data(rng, m=rng.choice(list(range(1, 14)) + [50, 101]), nan=rng.random() < 0.2, dup=rng.random() < 0.3, const_ok=True)


def p04_directed():
    out = []
    for m in range(1, 12):
        for t0 in (0.0, 5.0, -2.5, -1000.0, -2450000.5, 2450000.5, -2.0 ** 40, 2.0 ** 40):
            for nd in (1, 2):
                out.append({"t": [t0 + i * i * 0.5 + i for i in range(m)], "data": [[float(i + j) for i in range(m)] for j in range(nd)]})
    for m in (33000, 33001, 66000, 70001, 131073):
        out.append({"t": [i * 0.25 + i // 9 for i in range(m)], "data": [[float(i) for i in range(m)]]})
    return out


# ---------------------------------------------------------------- C05
def p05_rows(text):
    """rows (t, x, err or None) of a file, from the property text"""
    rows = []
    lines = text.split("\n")
    for line in lines:
        if line.startswith("#"):
            continue
        f = line.replace(",", " ").split()
        if len(f) < 2:
            continue
        try:
            a, b = float(f[0]), float(f[1])
        except ValueError:
            continue
        e = None
        if len(f) > 2:
            try:
                e = float(f[2])
            except ValueError:
                e = None
        rows.append((a, b, e))
    return rows


def p05(c):
    path = os.path.join(SCRATCH, "case_%d.txt" % os.getpid())
    if c["text"] is None:
        path += ".missing"
    else:
        with open(path, "w") as f:
            f.write(c["text"])
    try:
        rows = p05_rows(c["text"]) if c["text"] is not None else []
        exp = "BadDataFileReadException" if c["text"] is None else (None if rows else "EmptyDataStructureException")
        for f in (lambda: DataStructure(path), lambda: SACF(filename=path)):
            try:
                o, got = f(), None
            except Exception as ex:
                got = type(ex).__name__
            need(got == exp, "reading the file gave %s, expected %s", got or "an object", exp or "an object")
            if got:
                continue
            d = o.data if isinstance(o, SACF) else o
            t, x = [r[0] for r in rows], [r[1] for r in rows]
            need(same_list(d.timeseries(), t), "times read are %r, expected %r", list(d.timeseries()), t)
            dd = d.data()
            need(len(dd) == 1 and same_list(dd[0], x), "values read are %r, expected %r", [list(r) for r in dd], x)
            err = [NAN if r[2] is None else r[2] for r in rows] if rows[0][2] is not None else None
            got = [list(r) for r in d.errors()]
            need(len(got) == (1 if err else 0) and (not err or same_list(got[0], err)), "errors read are %r, expected %r", got, err)
            ref = DataStructure(t, x) if err is None else DataStructure(t, x, err)
            for name in ("timeseries", "normalised_timeseries"):
                need(same_list(getattr(d, name)(), getattr(ref, name)()), "%s differs from the list form", name)
            need(same_list(d.normalised_data()[0], ref.normalised_data()[0]), "normalised data differs from the list form")
            for name in ("median_time", "max_time", "N_datasets", "M_datapoints"):
                need(getattr(d, name) == getattr(ref, name), "%s differs from the list form", name)
            need(same_list(d.mean_data, ref.mean_data), "mean differs from the list form")
    finally:
        if os.path.exists(path):
            os.unlink(path)


NUMS = ["0", "1", "2.5", "-3", "+4.25", "1e3", "-2.5e-2", "0.125", ".5", "7.", "12345.678", "1E2"]


def p05_gen(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20])
    sep = rng.choice([" ", ",", "\t", ", ", "  ", None])
    errs = rng.choice([0, 1, 2])
    out = []
    tt = 0.0
    for i in range(n):
        r = rng.random()
        if r < 0.12:
            out.append(rng.choice(["# comment", "#1 2 3", "#", "#1,2,3"]))
        elif r < 0.2:
            out.append("")
        elif r < 0.3:
            out.append(rng.choice(["time value", "t,x,e", "   ", "5", "abc 1 2", "x", ",,", "1 abc", "7,", " ", "1 abc 3", "4 - 5"]))
        else:
            s = sep or rng.choice([" ", ",", "\t", " , "])
            tt += rng.choice([1.0, 0.5, 2.25])
            f = [rng.choice([repr(tt), "%g" % tt]), rng.choice(NUMS + [repr(rng.gauss(0, 3))])]
            if errs == 1 or (errs == 2 and rng.random() < 0.5):
                f.append(rng.choice(NUMS + ["x", "-", "n/a"]) if errs == 2 else rng.choice(NUMS))
            if errs != 1 and len(f) == 2 and rng.random() < 0.15 or errs == 1 and rng.random() < 0.1:
                f.append(rng.choice(["# ok", "#1", "flag", "#", "a#b"]))
            out.append(rng.choice(["", "", "", " "]) + s.join(f) + rng.choice(["", "", "", " ", "\t", s.strip() and ""]))
    text = "\n".join(out) + rng.choice(["", "\n", "\n\n"])
    return {"text": text}


def p05_directed():
    T = ["0 1\n1 2\n2 0\n", "0,1\n1,2\n2,0", "0,1,0.1\n1,2,0.2\n2,0,0.3\n", "0 1 0.1\n1 2 0.2\n2 0 0.3", "#h\n0 1\n\n1 2\n", "t,x\n0,1\n1,2\n",
         "0 1 .5\n1 2\n2 3 .25\n", "0 1\n1 2 .5\n2 3 .25\n", "0 1 .5\n1 2 x\n2 3 .25\n", "0 1 .5\n1 2 x\n2 3 x\n", "", "\n", "#only\n", "abc\n",
         "0 1 .5\n#c\n1 2 .75\n", "5\n0 1\n1 2\n", "0 1\n5\n1 2\n", "1 abc\n2 3\n", "0,1,\n1,2,\n", "0 , 1\n1 , 3\n", " # x\n0 1\n1 2\n", "0 1 x\n1 2 .5\n2 5 .5\n",
         "0 1 2\n", "0 1\n", "-1 -2 -3\n0 5 6\n", "0\t1\t2\n1\t2\t3\n", "1e0 1e1\n2e0 -1e-1\n", None, "0 1 1\n1 2 2\nabc\n2 3 3\n4\n5 6 7\n",
         "\n".join("%d %d %d" % (i, i * i, i + 1) for i in range(300)), "\n".join("%d,%d" % (i, i * i) for i in range(300)) + "\n",
         "0 1 .5\n" + "\n".join("%d %d" % (i, i) for i in range(1, 9)), "0 1 .5 \n1 2 .5 \n", "0.25 1\n0.5 2\n#5 5\n0.75 1.5",
         "0 1 #first\n1 2\n2 5 #last\n", "0 1 first\n1 2 0.25\n2 5 0.125\n", "0 1\n1 2 #\n2 3\n", "0 1 .5\n1 2 #none\n2 3 .25\n",
         "0,1,#a\n1,2\n", "0 1 flag\n1 2 flag\n", "x#\n0 1\n1 2\n", "#\n#\n0 1\n#0 7\n1 2\n#", "0 1\r\n1 2\r\n", "0 1 .5\r\n1 2 .25\r\n",
         "\n\n\n0 1\n\n\n1 2", "+0 +1\n+1 -2\n", "0 1e-3\n1 2E+2\n2 -.5\n", "0 1 0\n1 2 0\n", "0 1 -1\n1 2 -.5\n", "0 0\n0 0\n1 0\n", "%s 1\n%s 2" % (2450000.123456789, 2450001.123456789),
         "\n".join("%d %d%s" % (i, i, " .5" if i % 3 else "") for i in range(60)), "\n".join("%d %d%s" % (i, i, "" if i % 3 else " .5") for i in range(60)),
         "\n".join("%d,%d,%d" % (i, i % 97, i % 13) for i in range(70000)),
         " " * 700 + "0" + " " * 700 + "1" + " " * 700 + "2\n" + "1 2 " + "0" * 300 + "3\n2 5 4", "0 1 " + "x" * 5000 + "\n1 2\n", "#" + "7 " * 5000 + "\n0 1\n1 2 \n",
         "0." + "1" * 400 + " 1\n1." + "0" * 5000 + "5 2\n", "0 1 2 " + "# long remark " * 300 + "\n1 2 3 " + "y" * 1100 + "\n2 4 5\n", "1e-30 1e-20 1e-10\n1e30 -1e20 1e10\n",
         "0 1 .5\n" + "\n" * 3000 + "1 2 .25", "# a\n" * 2000 + "0 1 .5\n" + "# a\n" * 2000 + "1 2 .25\n"]
    return [{"text": t} for t in T]


# ---------------------------------------------------------------- C06
def p06(c):
    s = make(c)
    d = ref_defaults(c["t"])
    st = settings(c)
    k = Correlator(s.data)
    for a, b in (("max_lag", "max"), ("min_lag", "min"), ("lag_resolution", "res"), ("alpha", "alpha")):
        if d[b] is not None:
            need(close(getattr(k, a), d[b], 1e-12 * abs(d[b])), "default %s is %r, expected %r", a, getattr(k, a), d[b])
    if c.get("badres") is not None:
        for f in (lambda: s.autocorrelation(lag_resolution=c["badres"]), lambda: setattr(Correlator(s.data), "lag_resolution", c["badres"])):
            try:
                f()
                ok = True
            except Exception:
                ok = False
            need(not ok, "lag resolution %r was accepted", c["badres"])
        return
    _, _, corr = call(s, c, return_correlator=True)
    for a, b in (("max_lag", "max"), ("min_lag", "min"), ("lag_resolution", "res"), ("alpha", "alpha")):
        exact = c.get(b) is not None
        need(st[b] is None or (getattr(corr, a) == st[b] if exact else close(getattr(corr, a), st[b], 1e-12 * abs(st[b]))),
             "%s is %r, expected %r", a, getattr(corr, a), st[b])
    for a, b in (("max_lag", "max"), ("min_lag", "min"), ("lag_resolution", "res"), ("alpha", "alpha")):
        k = Correlator(s.data)
        before = {x: getattr(k, x) for x in ("max_lag", "min_lag", "lag_resolution", "alpha")}
        v = c.get(b) if c.get(b) is not None else 2.625
        setattr(k, a, v)
        for x in before:
            need(getattr(k, x) == (v if x == a else before[x]), "setting %s changed %s to %r", a, x, getattr(k, x))


def p06_gen(rng):
    c = gen_fn(rng, gen_lags(rng, gen_data(rng, err=False, dup=rng.random() < 0.3)))
    c["data"] = c["data"][:1]
    if rng.random() < 0.15:
        c["badres"] = rng.choice([0.0, 0, -1.0, -0.5, NAN, -1e-9, -3])
    elif rng.random() < 0.4:  # a random subset of overrides
        for x in ("min", "max", "alpha"):
            if rng.random() < 0.5:
                c[x] = None
    return fit(c)


def fit(c):
    st = settings(c)
    if st["res"] is None or not (st["res"] > 0):
        return c
    if (st["max"] - st["min"]) / st["res"] > 3000:
        c["res"] = math.ldexp(1.0, math.frexp((st["max"] - st["min"]) / 500.0)[1])
    return c


def p06_directed():
    out = []
    t = [3.0, 4.0, 6.0, 6.5, 9.0]
    x = [[1.0, 2.0, 0.0, 5.0, -1.0]]
    vals = {"min": [0, 0.0, -2.0, 1.0], "max": [0, 0.0, 3.0, -1.0], "res": [0.25, 2, 1e-2], "alpha": [0.5, 4, 1e-2, -1.5]}
    for m in range(16):
        for i in range(4):
            for sel, wf in (("natural", "fractional"), ("fast", "gaussian")):
                c = {"t": t, "data": x, "sel": sel, "wf": wf}
                for b, n in enumerate(("min", "max", "res", "alpha")):
                    if m >> b & 1:
                        c[n] = vals[n][i % len(vals[n])]
                out.append(c)
    for r in (0.0, 0, -1.0, -0.5, NAN, float("-inf")):
        out.append({"t": t, "data": x, "badres": r})
    for tt in ([0.0, 0.0, 1.0], [0.0, 1.0, 1.0, 4.0], [1.0, 1.0, 1.0 + 2.0 ** -20], [0.0, 5.0, 5.5, 6.5, 6.75], [0.0, 0.25, 10.0], [0.0, 8.0, 8.5], [2.0, 3.5], [0.0, 1e-3, 2e-3 + 1e-4], [0.0, 2.0 ** 50], [0.0, 2.0 ** 40, 2.0 ** 42], [0.0, 1.0, 1.0 + 2.0 ** -40, 2.0], [0.0, 2.0 ** -42, 1.0, 4.0], [0.0, 2.0 ** -60, 2.0 ** -58], [-8.0, -7.0, -1.0, -0.75, 3.0]):
        out.append(fit({"t": tt, "data": [[float(i * i) for i in range(len(tt))]], "res": None}))
        out[-1]["max"] = 1.0
        out[-1]["min"] = 0.5
    for m, gap in ((70, 5), (140, 139), (300, 257), (600, 1), (1030, 1025), (2060, 600), (5000, 4999), (9000, 8999)):
        # the smallest gap sits late, and the median of an odd or even count is not the middle of the span
        tt = [0.0]
        for i in range(1, m):
            tt.append(tt[-1] + (0.25 if i == gap else 1.0 + (i % 3) / 2.0))
        out.append({"t": tt, "data": [[float(i * i % 11) for i in range(m)]], "res": None, "min": 0.5, "max": 2.25})
        if m < 700:
            out.append({"t": tt, "data": [[float(i * i % 11) for i in range(m)]], "res": tt[-1] / 4, "sel": "fast", "wf": "gaussian"})
    return [c for c in out if settings(c)["res"] is None or c.get("badres") is not None or (settings(c)["max"] - settings(c)["min"]) / settings(c)["res"] < 1e5]


# ---------------------------------------------------------------- C07
def p07(c):
    s = make(c)
    lags, cor = call(s, c)
    check_grid(c, list(lags))
    for r in rows_of(c, cor):
        need(len(r) == len(lags), "row length %d for %d lags", len(r), len(lags))


def corr_gen(rng, **kw):
    return gen_fn(rng, gen_lags(rng, gen_data(rng, **kw)))


def p07_directed():
    out = []
    for sel, wf in (("natural", "fractional"), ("fast", "gaussian"), ("natural", "gaussian"), ("fast", "fractional_squared")):
        for mn, mx, res in ((-1.0, 1.0, 0.5), (-1.0, 1.0, 0.75), (0.5, 2.0, 0.5), (0.5, 0.5, 1.0), (-2.0, -1.0, 0.25), (-2.0, -0.5, 1.0), (1.0, -1.0, 0.5), (0.0, 2.0, 0.5),
                            (0, 0, 1), (-0.5, 0.0, 0.5), (-0.5, 0.0, 0.25), (-0.3, 0.0, 0.25), (-0.25, 0.5, 1.0), (-10.0, 10.0, 0.0625), (-1.0, 0.75, 0.5), (-3.0, -3.0, 0.5),
                            (-1.0, 500.0, 0.5), (-500.0, 1.0, 0.5), (5.0, 5.0, 0.5), (-0.0, 1.0, 0.5), (7.0, 9.0, 0.25), (-9.0, -7.0, 0.25)):
            out.append({"t": [0.0, 1.0, 2.5, 4.0], "data": [[1.0, 0.0, 2.0, 5.0]], "sel": sel, "wf": wf, "min": mn, "max": mx, "res": res})
            out.append({"t": [0.0, 1.0, 2.5, 4.0], "data": [[1.0, 0.0, 2.0, 5.0], [0.0, 3.0, -2.0, 5.0]], "sel": sel, "wf": wf, "min": mn, "max": mx, "res": res})
        out.append({"t": [0.0, 1.0, 2.5, 4.0], "data": [[1.0, 0.0, 2.0, 5.0]], "sel": sel, "wf": wf})
        out.append({"t": [0.0, 3.0], "data": [[1.0, 0.0]], "sel": sel, "wf": wf})
        # the ends and the crossing of zero missed by a hair, all exact in binary
        for e in (-10, -17, -20, -24, -27, -30, -34, -40):
            x = 2.0 ** e
            for mn, mx, res in ((-1.0, 1.0, 0.5 + x), (-1.0, 1.0, 0.5 - x), (-1.0, 2.0, 1.0 + x), (-1.0, 2.0, 1.0 - x), (-2.0, 1.0 - x, 0.5), (-2.0, 1.0 + x, 0.5), (x, 2.0, 0.5), (-x, 2.0, 0.5),
                                (-2.0, -x, 0.5), (-2.0, x, 0.5), (-x, x, 1.0), (x, x, 0.25), (-1.0, 0.0, 0.25 + x), (-1.0, 0.0, 0.25 - x), (1.0, 1.0 - x, 0.5), (1.0, 1.0 + x, 0.5)):
                out.append({"t": [0.0, 1.0, 2.5, 4.0], "data": [[1.0, 0.0, 2.0, 5.0]], "sel": sel, "wf": wf, "min": mn, "max": mx, "res": res})
    return out + big_cases()


# ---------------------------------------------------------------- C08 / C09
def sel_check(c, kind):
    s = make(c, DataStructure)
    k = Correlator(s)
    tn = list(s.normalised_timeseries())
    for lag in c["lags"]:
        it = CorrelationIterator(lag, k.N_datasets)
        getattr(k, kind + "SelectionFunctionIdx")(it)
        got = list(it.selection_indices)
        k.deltaT(it)
        dist = list(it.delta_t)
        sel, d, amb = ref_select(tn, lag, kind, c["t"][0])
        for x in got:
            need(0 <= x < len(tn), "lag %r: selected sample %d of %d", lag, x, len(tn))
        if amb:
            continue
        need(list(it.selection_indices) == got, "deltaT changed the selection")
        need(got == sel, "lag %r: selected %r, expected %r", lag, got, sel)
        need(len(dist) == len(d) and all(close(a, b, 1e-12 * (tn[-1] + abs(lag))) for a, b in zip(dist, d)),
             "lag %r: distances %r, expected %r", lag, dist, d)
    # through the public call: weights are observable via the correlation of unit impulses
    if c.get("public"):
        m = len(tn)
        lag = c["lags"][0]
        sel, d, amb = ref_select(tn, lag, kind, c["t"][0])
        if not amb and m >= 3:
            c2 = {"t": c["t"], "data": [[1.0 if i == p else 0.0 for i in range(m)] for p in range(m)], "min": lag, "max": lag, "res": 1.0, "sel": kind,
                  "wf": c["public"], "alpha": 1.5}
            lags, cor = call(make(c2), c2)
            check_values(c2, list(lags), [list(r) for r in cor])


def sel_gen(kind):
    def gen(rng):
        c = gen_data(rng, nd=1, err=False)
        span = c["t"][-1] - c["t"][0]
        lags = [0.0]
        tn = [x - c["t"][0] for x in c["t"]]
        for _ in range(12):
            r = rng.randrange(6)
            if r == 0:
                lags.append(dy(rng, -int(span) - 2, int(span) + 2))
            elif r == 1:
                a, b = rng.choice(tn), rng.choice(tn)
                lags.append(a - b)
            elif r == 2:
                a, b, e = rng.choice(tn), rng.choice(tn), rng.choice(tn)
                lags.append((a + b) / 2 - e)
            elif r == 3:
                lags.append(rng.uniform(-span - 1, span + 1))
            elif r == 4:
                lags.append(rng.choice([-span, span, -2 * span, 2 * span, -1e6, 1e6, -span - 0.125, span + 0.125, span - 0.0625]))
            else:
                lags.append(rng.choice(tn) + rng.choice([0.0, 0.0625, -0.0625]))
        rng.shuffle(lags)
        c["lags"] = lags
        if rng.random() < 0.5:
            c["public"] = rng.choice(WF)
        return c
    return gen


def sel_directed():
    out = []
    for t in ([0.0, 1.0, 2.0, 3.0, 4.0], [0.0, 1.0, 1.5, 4.0, 4.25, 9.0], [5.0, 6.0], [3.0], [0.0, 0.125, 8.0], [0.0, 7.875, 8.0], [0.0, 2.0, 4.0, 8.0, 16.0, 18.0, 20.0], [-10.0, -9.5, -4.0, 0.0, 0.25]):
        span = t[-1] - t[0]
        lags = [i / 8.0 for i in range(int(-8 * span) - 24, int(8 * span) + 25)]
        for w in WF:
            for l0 in (0.0, 0.5, -0.5, span - 0.0625, -span):
                out.append({"t": t, "data": [[float(i) for i in range(len(t))]], "lags": [l0] + (lags if l0 == 0.0 and w == WF[0] else []), "public": w})
    big = [i + (i % 3) / 4.0 for i in range(400)]
    out.append({"t": big, "data": [[float(i % 5) for i in range(400)]], "lags": [0.0, 3.25, -7.5, 398.0, -390.0, 0.125, 250.375]})
    # almost ties, almost the last time: every quantity a short binary fraction, so the arithmetic is exact
    for t in ([0.0, 1.0, 2.0, 3.0, 4.0], [0.0, 1.0, 1.5, 4.0, 4.25, 9.0], [0.0, 2.0, 4.0, 8.0, 16.0]):
        lags = []
        for e in (-8, -13, -18, -21, -25, -29, -34, -38, -41):
            for sg in (1.0, -1.0):
                x = sg * 2.0 ** e
                lags += [x, 0.5 + x, -0.5 + x, t[-1] + x, t[-1] - t[1] + x, t[-1] - t[2] + x, (t[-1] + t[-2]) / 2 + x, (t[1] + t[2]) / 2 + x, -t[1] + x, (t[2] + t[3]) / 2 - t[1] + x]
        out.append({"t": t, "data": [[float(i) for i in range(len(t))]], "lags": lags, "public": "gaussian"})
    for m in (70, 140, 270, 530, 1030, 2060):
        big = [i + (i % 7) / 16.0 for i in range(m)]
        out.append({"t": big, "data": [[float(i % 5) for i in range(m)]], "lags": [0.0, 1.5, -7.5, m - 2.75, 0.4 - m, m / 2.0]})
    return out


# ---------------------------------------------------------------- C10
def p10(c):
    a = c["alpha"]
    s = DataStructure([0.0, 1.0, 2.0], [1.0, 5.0, 2.0])
    k = Correlator(s)
    k.alpha = a
    fn = {"fractional": k.fractionWeightFunction, "gaussian": k.gaussianWeightFunction, "fractional_squared": k.fractionSquaredWeightFunction}
    for wf in WF:
        last = None
        for d in sorted(c["d"]):
            w, ref = fn[wf](d), ref_weight(d, a, wf)
            need(close(w, ref, 1e-12 * ref + 1e-300 + (4 * EPS * (d / a) ** 2 * ref if wf == "gaussian" else 0)), "%s weight at d=%r, a=%r is %r, expected %r", wf, d, a, w, ref)
            need(0 <= w <= 1, "%s weight at d=%r, a=%r is %r", wf, d, a, w)
            need(ref < 1e-290 or w > 0, "%s weight at d=%r, a=%r is %r", wf, d, a, w)
            need(d != 0 or w == 1.0, "%s weight at zero distance is %r", wf, w)
            need(last is None or w <= last, "%s weight increases with distance at %r", wf, d)
            last = w
    # vectors, in pair order, through the pipeline
    t = [0.0]
    for d in c["d"]:
        t.append(t[-1] + abs(d) + 0.5)
    ds = DataStructure(t, [float(i * i % 7) for i in range(len(t))])
    k = Correlator(ds)
    k.alpha = a
    for sel in SEL:
        for wf in WF:
            it = CorrelationIterator(c["lag"], 1)
            getattr(k, sel + "SelectionFunctionIdx")(it)
            k.deltaT(it)
            d = list(it.delta_t)
            getattr(k, WMETH[wf])(it)
            w = list(it.weights)
            need(len(w) == len(d), "%d %s weights for %d pairs", len(w), wf, len(d))
            for x, y in zip(w, d):
                ref = ref_weight(y, a, wf)
                need(close(x, ref, 1e-12 * ref + 1e-300 + (4 * EPS * (y / a) ** 2 * ref if wf == "gaussian" else 0)), "%s weight of pair at distance %r is %r, expected %r", wf, y, x, ref)
    # names of the public call
    for wf in WF:
        for sel in SEL:
            c2 = {"t": t, "data": [[float((i * i + 1) % 7) for i in range(len(t))]], "min": c["lag"], "max": c["lag"], "res": 1.0, "alpha": a, "sel": sel, "wf": wf}
            lags, cor = call(make(c2), c2)
            check_values(c2, list(lags), rows_of(c2, cor))


def p10_gen(rng):
    n = rng.randint(1, 9)
    return {"alpha": rng.choice([0.001, 0.1, 0.5, 1, 1.0, 2.5, 7.3, 100.0, 1e4, rng.random() * 10 + 0.01]),
            "d": [rng.choice([0.0, 0.125, 0.5, 1.0, 3.75, rng.random(), rng.random() * 20, 100.0, 1e-7]) for _ in range(n)],
            "lag": rng.choice([0.0, 0.25, -0.25, 0.7, -1.3, 1.0, 0.0625])}


def p10_directed():
    return [{"alpha": a, "d": [0.0, 1e-9, 0.01, 0.25, 0.5, 1.0, 2.0, 4.0, 1e3], "lag": l} for a in (0.01, 0.5, 1.0, 2.0, 50.0, 3, 0.3) for l in (0.0, 0.3, -0.2)] + \
        [{"alpha": 1.75, "d": [((i * 37) % 101) / 16.0 for i in range(m)], "lag": 0.3} for m in (70, 150, 300, 600, 1100)] + \
        [{"alpha": a, "d": [a * q for q in (0.0, 2.0 ** -40, 2.0 ** -20, 1e-3, 0.3, 1.0, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 8.5, 10.5, 13.0, 20.5, 26.0, 30.5, 34.0, 36.25)], "lag": l * a} for a in (2.0 ** -30, 0.75, 2.0 ** 40) for l in (0.0, 0.25)]


# ---------------------------------------------------------------- C11
def p11(c):
    lags, cor = call(make(c), c)
    lags = list(lags)
    rows = rows_of(c, cor)
    big = len(lags) * len(c["t"]) > 60000
    rng = random.Random(len(lags))
    check_values(c, lags, rows, only=set(rng.sample(range(len(lags)), min(len(lags), 40))) | corners(len(lags)) if big else None)


# ---------------------------------------------------------------- C12
def p12(c):
    d = ref_defaults(c["t"])
    for wf in WF:
        s = make(c)
        for kw in ({}, {"min_lag": 0, "max_lag": 0}, {"min_lag": -d["max"] / 2 - min(0.3, d["max"] / 16), "max_lag": d["max"] / 2, "lag_resolution": max(d["res"], d["max"] / 8)}):
            if kw == {} and (2 * d["max"] / d["res"] > 3000 or 2 * d["max"] / d["res"] * len(c["t"]) > 100000):
                kw = {"lag_resolution": d["max"] / 7.3}
            if "min_lag" in kw and kw["min_lag"] < 0 and kw["max_lag"] < kw["lag_resolution"]:
                continue
            if c.get("alpha") is not None:
                kw = dict(kw, alpha=c["alpha"])
            lags, cor = s.autocorrelation(weight_function=wf, **kw)
            lags = list(lags)
            need(0.0 in lags, "lag zero is not among the lags (%s)", kw)
            i = lags.index(0.0)
            for j, r in enumerate(rows_of(c, cor)):
                tol = ref_tol(c["data"][j])[0]
                if tol is None or tol > 0.05:
                    continue
                need(close(r[i], 1.0, tol), "zero-lag correlation of dataset %d with %s is %r", j, wf, r[i])


def p12_gen(rng):
    c = gen_data(rng)
    if rng.random() < 0.4:
        c["alpha"] = rng.choice([0.1, 1.0, 5.5, 1e-3, 1e3])
    return c


# ---------------------------------------------------------------- C13
def p13(c):
    s = make(c)
    lags, cor, k = call(s, c, return_correlator=True)
    lags = list(lags)
    one = len(c["data"]) == 1
    if one:
        need(len(cor) == 0 or not hasattr(cor[0], "__len__"), "a single dataset does not give the row itself")
        rows = [list(cor)]
    else:
        need(all(hasattr(r, "__len__") for r in cor), "not one row per dataset")
        rows = [list(r) for r in cor]
    need(len(rows) == len(c["data"]), "%d rows for %d datasets", len(rows), len(c["data"]))
    for r in rows:
        need(len(r) == len(lags), "a row has %d values for %d lags", len(r), len(lags))
    need(same_list(k.lag_timeseries(), lags), "the returned correlator has other lags")
    kr = [list(r) for r in k.correlations()]
    need(len(kr) == len(rows) and all(same_list(a, b) for a, b in zip(kr, rows)), "the returned correlator has other rows")
    out2 = call(s, c)
    need(len(out2) == 2 and same_list(out2[0], lags), "result without correlator differs")
    need(one or all(hasattr(r, "__len__") for r in out2[1]), "not one row per dataset")
    need(same_rows(rows_of(c, out2[1]), rows), "result without correlator differs")
    # independence of other datasets and order
    n = len(c["data"])
    perm = list(range(n))
    random.Random(c.get("perm", 1)).shuffle(perm)
    c2 = dict(c, data=[c["data"][p] for p in perm], err=None, form=None)
    l2, r2 = call(make(c2), c2)
    need(len(rows_of(c2, r2)) == n, "%d rows for %d datasets in another order", len(rows_of(c2, r2)), n)
    for i, r in enumerate(rows_of(c2, r2)):
        need(same_list(l2, lags) and same_list(r, rows[perm[i]]), "row of a dataset depends on the order of the datasets")
    for j in range(min(n, 3)):
        c3 = dict(c, data=[c["data"][j]], err=None, form="1d")
        l3, r3 = call(make(c3), c3)
        need(same_list(l3, lags) and same_list(r3, rows[j]), "row of dataset %d differs when computed alone", j)
    check_values(c, lags, rows, only=corners(len(lags)) if len(lags) * len(rows) < 3000 else {0, len(lags) // 2, len(lags) - 1})


def p13_gen(rng):
    c = corr_gen(rng, nd=rng.choice([1, 2, 2, 3, 4, 6]))
    c["perm"] = rng.randint(0, 99)
    return c


def p13_directed():
    many = []
    for nd, m in ((140, 3), (300, 4), (1100, 2)):
        for sel, wf in (("natural", "fractional"), ("fast", "gaussian")):
            many.append({"t": [i * 1.5 for i in range(m)], "data": [[(j * 131 + i * i * 7 + i * j) % 1009 / 4.0 + i for i in range(m)] for j in range(nd)], "sel": sel, "wf": wf, "min": 0.0, "max": 1.5})
    many.append({"t": [0.0, 1.5], "data": [[float(j % 1009), j % 7 + 2000.5] for j in range(33000)], "sel": "fast", "wf": "fractional", "min": 0.0, "max": 0.0})
    return std_directed() + large_cases()[:8] + many + [c for c in big_cases() if len(c["t"]) < 100]


# ---------------------------------------------------------------- C14
def p14(c):
    if c.get("life"):
        return p14_life(c)
    s = make(c)
    d = s.data
    nd = len(c["data"])
    for op in c["ops"]:
        cc = dict(c, **op.get("set", {}))
        if op["op"] == "auto":
            lags, cor, k = call(s, cc, return_correlator=True)
            list(lags), [list(r) for r in k.correlations()]
        elif op["op"] == "low":
            k = Correlator(d)
            st = settings(cc)
            if st["res"] is None:
                st["res"] = 1.0
            k.max_lag, k.min_lag, k.lag_resolution = st["max"], st["min"], st["res"]
            if cc.get("alpha") is not None:
                k.alpha = cc["alpha"]
            for step in op["steps"]:
                if step == "std":
                    k.calculateStandardCorrelation()
                elif step == "clear":
                    k.clearCorrelation()
                elif step == "gen":
                    SACF.find_correlation(k, cc.get("sel") or "natural", cc.get("wf") or "fractional")
                elif step == "read":
                    n = len(k.lag_timeseries())
                    need(all(len(r) == n for r in k.correlations()), "rows and lags have different lengths")
                    need(len(k.correlations()) == nd, "wrong number of rows")
                elif step.startswith("clean:"):
                    k.cleanCorrelationData(int(step[6:]))
                    need(len(k.lag_timeseries()) == int(step[6:]), "wrong number of lags")
                elif step == "halve":
                    k.lag_resolution = k.lag_resolution / 2
                elif step == "wide":
                    k.max_lag = k.max_lag + 3 * k.lag_resolution
                elif step == "narrow":
                    k.max_lag = k.max_lag - 3 * k.lag_resolution
                elif step.startswith("it:"):
                    _, lag, sel, wf, pos = step.split(":")
                    it = CorrelationIterator(float(lag), k.N_datasets)
                    getattr(k, sel + "SelectionFunctionIdx")(it)
                    need(all(0 <= x < len(c["t"]) for x in it.selection_indices), "selected a sample that does not exist")
                    k.deltaT(it)
                    getattr(k, WMETH[wf])(it)
                    k.findCorrelation(it)
                    k.addCorrelationData(it, int(pos))
                    need(len(it.correlation) == nd, "wrong number of correlations")
    list(d.data()), list(d.errors()), list(d.normalised_data()), d.median_time, d.max_time, list(d.mean_data)


def p14_life(c):
    s = make(c)
    lags, cor, k = call(s, c, return_correlator=True)
    exp = ([list(r) for r in k.values()], list(k.normalised_timeseries()), list(lags), rows_of(c, cor))
    del s, lags, cor
    junk = []
    for i in range(6):
        gc.collect()
        junk.append([bytearray(b"\x5a" * (64 + 32 * j)) for j in range(60)])
    k2 = [make(dict(c, data=[[x + 1 for x in r] for r in c["data"]]), DataStructure) for _ in range(40)]
    gc.collect()
    del junk
    need(same_rows(k.values(), exp[0]), "the returned correlator's values changed after other objects were freed")
    need(same_list(k.normalised_timeseries(), exp[1]), "the returned correlator's times changed after other objects were freed")
    k.calculateStandardCorrelation()
    SACF.find_correlation(k, c.get("sel") or "natural", c.get("wf") or "fractional")
    got = (list(k.lag_timeseries()), [list(r) for r in k.correlations()])
    need(same_list(got[0], exp[2]) and same_rows(got[1], exp[3]), "recomputing on the returned correlator gives other results after other objects were freed")
    del k2


def p14_gen(rng):
    c = gen_fn(rng, gen_lags(rng, gen_data(rng, nan=rng.random() < 0.3, dup=rng.random() < 0.4, const_ok=True, m=rng.choice([1, 2, 3, 4, 5, 6, 9, 14]))))
    if rng.random() < 0.15:
        c["life"] = True
        return c
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.4:
            ops.append({"op": "auto", "set": gen_fn(rng, {})})
        else:
            steps = []
            for _ in range(rng.randint(1, 7)):
                r = rng.random()
                if r < 0.25:
                    steps.append("it:%r:%s:%s:%d" % (rng.choice([0.0, 0.5, -1.0, 2.0, 100.0, -100.0, dy(rng, -5, 5)]), rng.choice(SEL), rng.choice(WF), rng.choice([0, 1, 2, 5, 17, 300, 2000])))
                elif r < 0.35:
                    steps.append("clean:%d" % rng.choice([0, 1, 2, 3, 5, 9, 40, 1000]))
                else:
                    steps.append(rng.choice(["std", "std", "gen", "clear", "read", "halve", "wide", "narrow"]))
            steps.append("read")
            ops.append({"op": "low", "steps": steps})
    c["ops"] = ops
    return c


def p14_directed():
    out = []
    for c in std_directed()[:40]:
        out.append(dict(c, ops=[{"op": "auto"}, {"op": "low", "steps": ["std", "read", "clear", "read", "std", "read", "halve", "gen", "read", "narrow", "std", "read", "wide", "gen", "read", "clear", "gen", "read"]}]))
        out.append(dict(c, life=True))
    for t in ([0.0], [0.0, 0.0], [1.0, 1.0, 1.0], [0.0, 1.0, 1.0, 1.0, 2.0], [0.0, 2.0 ** -16, 1.0]):
        for nd in (1, 2):
            for sel in SEL:
                c = {"t": t, "data": [[float((i * 3 + j) % 4) for i in range(len(t))] for j in range(nd)], "sel": sel, "wf": "gaussian", "min": -2.0, "max": 2.5, "res": 0.5, "alpha": 1.0}
                out.append(dict(c, ops=[{"op": "auto"}, {"op": "low", "steps": ["std", "read", "it:0.0:fast:gaussian:9", "it:-0.5:natural:fractional:40", "std", "read"]}]))
                if t[-1] > t[0] and nd == 1:
                    d = dict(c, min=None, max=None, res=None)
                    out.append(dict(d, ops=[{"op": "auto"}]))
    for c in big_cases() + large_cases():
        out.append(dict(c, ops=[{"op": "auto"}]))
    out.append({"t": [0.0, 1.0, 2.0], "data": [[1.0, 2.0, 4.0]], "ops": [{"op": "low", "steps": ["read", "clean:1", "read", "clean:2", "read", "clean:7", "std", "clean:0", "read", "clean:1", "clean:3", "clear", "clear", "read", "it:0.0:natural:fractional:0", "read", "clear", "it:0.0:fast:gaussian:1000", "read", "clear", "std", "read"]}]})
    return out


# ---------------------------------------------------------------- C15
def p15(c):
    base = call(make(c), c)
    lags, rows = list(base[0]), rows_of(c, base[1])
    tols = [ref_tol(s)[0] for s in c["data"]]
    st = settings(c)
    t0 = c["t"][0]
    tn = [x - t0 for x in c["t"]]
    if ref_grid(st["min"], st["max"], st["res"])[1]:
        return
    amb = [ref_select(tn, k, c.get("sel") or "natural", t0)[2] for k in lags]
    for tr in c["tr"]:
        kind, v = tr
        c2 = dict(c)
        f = 1.0
        if kind == "off":
            c2["data"] = [[x + v for x in s] for s in c["data"]]
        elif kind == "mul":
            c2["data"] = [[x * v for x in s] for s in c["data"]]
        elif kind == "tshift":
            c2["t"] = [x + v for x in c["t"]]
            if [x - c2["t"][0] for x in c2["t"]] != tn:
                continue
        else:
            f = v
            c2["t"] = [x * v for x in c["t"]]
            if [x - c2["t"][0] for x in c2["t"]] != [Fraction(x) * Fraction(v) for x in tn] or any(
                    Fraction(c[k] * v) != Fraction(c[k]) * Fraction(v) for k in ("min", "max", "res") if c.get(k) is not None):
                continue
            for k in ("min", "max", "res", "alpha"):
                if c.get(k) is not None:
                    c2[k] = c[k] * v
            st2 = settings(c2)
            if ref_grid(st2["min"], st2["max"], st2["res"])[1]:
                continue
        got = call(make(c2), c2)
        l2, r2 = list(got[0]), rows_of(c2, got[1])
        need(len(l2) == len(lags), "%s: number of lags changes from %d to %d", tr, len(lags), len(l2))
        need(len(r2) == len(rows) and all(len(x) == len(lags) for x in r2), "%s: the shape changes", tr)
        need(all(close(a * f, b, 1e-11 * (abs(st["min"] * f) + abs(b))) for a, b in zip(lags, l2)), "%s: lags change", tr)
        for j in range(len(rows)):
            tl = ref_tol(c2["data"][j])[0]
            if tl is None or tols[j] is None:
                continue
            tol = 2 * (tl + tols[j])
            if tol > 0.05:
                continue
            need(len(r2) == len(rows) and len(r2[j]) == len(rows[j]), "%s: shape changes", tr)
            for i in range(len(lags)):
                if amb[i] or (f != 1.0 and ref_select([x * f for x in tn], l2[i], c.get("sel") or "natural", c2["t"][0])[2]):
                    continue
                need(close(rows[j][i], r2[j][i], tol), "%s: correlation of dataset %d at lag %r changes from %r to %r", tr, j, lags[i], rows[j][i], r2[j][i])


def p15_gen(rng):
    c = corr_gen(rng)
    c["tr"] = [["off", rng.choice([1.0, -100.0, 1e6, 12345.0, 0.5])], ["mul", rng.choice([-1.0, 2.0, -3.5, 1e-3, 1e5])], ["tshift", rng.choice([1.0, -0.5, 100.0, 2048.0, -7.0])],
               ["tmul", rng.choice([2.0, 0.5, 3.0, 16.0, 10.0, 0.25])]]
    return c


def p15_directed():
    return [dict(c, tr=[["off", 1000.0], ["off", -3.0], ["off", 1e8], ["mul", -2.0], ["mul", 1e-4], ["tshift", 512.0], ["tshift", -3.0], ["tmul", 4.0], ["tmul", 0.125], ["tmul", 3.0], ["tmul", 2.0 ** -60], ["tmul", 2.0 ** 60], ["mul", 2.0 ** -60], ["mul", 2.0 ** 60]]) for c in std_directed()] + \
        [dict(c, tr=[["off", 1000.0], ["mul", -2.0], ["tshift", 512.0], ["tmul", 4.0]]) for c in large_cases()]


# ---------------------------------------------------------------- C16
def snap(d):
    return json.dumps([[list(r) for r in d.data()], [list(r) for r in d.errors()], list(d.timeseries()), list(d.normalised_timeseries()),
                       [list(r) for r in d.normalised_data()], list(d.mean_data), d.median_time, d.max_time, d.N_datasets, d.M_datapoints])


def res_of(case, out):
    return [list(out[0]), rows_of(case, out[1])]


def p16(c):
    inp = json.dumps([c["t"], c["data"], c.get("err")])
    s = make(c)
    need(json.dumps([c["t"], c["data"], c.get("err")]) == inp, "the input lists were changed by construction")
    before = snap(s.data)
    keep = []
    shared = Correlator(s.data)
    for n, op in enumerate(c["ops"]):
        cc = dict(c, min=None, max=None, res=None, alpha=None)
        cc.update(op["set"])
        exp = res_of(cc, call(make(cc), cc))
        if op.get("ref"):
            check_grid(cc, exp[0])
            check_values(cc, exp[0], exp[1])
        if op["op"] == "auto":
            out = call(s, cc, return_correlator=True)
            got = res_of(cc, out)
            for x in (out[0], out[1], s.data.data(), s.data.timeseries(), s.data.normalised_timeseries(), s.data.normalised_data(), s.data.mean_data, out[2].values(), out[2].correlations()):
                for y in (x if x and isinstance(x[0], list) else [x]):  # what a caller does to the lists it was given is its own business
                    y[:] = [77.0] * (len(y) + 1)
            keep.append((out[2], cc, exp))
        elif op["op"] == "new":
            k = Correlator(s.data)
            SACF.set_up_correlation(k, cc.get("min"), cc.get("max"), cc.get("res"), cc.get("alpha"))
            SACF.find_correlation(k, cc.get("sel") or "natural", cc.get("wf") or "fractional")
            got = [list(k.lag_timeseries()), [list(r) for r in k.correlations()]]
            keep.append((k, cc, exp))
        elif op["op"] == "other":  # another object, other data, same sizes
            co = dict(cc, t=op["t"], data=op["data"], err=None)
            o = make(co)
            out = call(o, co)
            got = exp = res_of(co, out)
            check_grid(co, got[0])
            check_values(co, got[0], got[1])
        else:  # the same correlator again and again
            st = settings(cc)
            k = shared
            k.min_lag, k.max_lag, k.lag_resolution, k.alpha = st["min"], st["max"], st["res"], st["alpha"]
            if op.get("clear"):
                k.clearCorrelation()
            if (cc.get("sel") or "natural", cc.get("wf") or "fractional") == ("natural", "fractional") and op.get("std"):
                k.calculateStandardCorrelation()
            else:
                SACF.find_correlation(k, cc.get("sel") or "natural", cc.get("wf") or "fractional")
            got = [list(k.lag_timeseries()), [list(r) for r in k.correlations()]]
        need(len(got[0]) == len(exp[0]) and same_list(got[0], exp[0]), "computation %d (%s) gives other lags than a first computation", n, op)
        need(len(got[1]) == len(exp[1]) and all(same_list(a, b) for a, b in zip(got[1], exp[1])), "computation %d (%s) gives other correlations than a first computation", n, op)
        need(snap(s.data) == before, "computation %d (%s) changed the data object", n, op)
        need(json.dumps([c["t"], c["data"], c.get("err")]) == inp, "computation %d changed the input lists", n)
    for k, cc, exp in keep:
        got = [list(k.lag_timeseries()), [list(r) for r in k.correlations()]]
        need(same_list(got[0], exp[0]) and same_rows(got[1], exp[1]), "the results held by an earlier correlator changed")
        st = settings(cc)
        for a, b in (("max_lag", "max"), ("min_lag", "min"), ("lag_resolution", "res"), ("alpha", "alpha")):
            need(close(getattr(k, a), st[b], 1e-12 * abs(st[b])), "the settings of an earlier correlator changed")


def p16_gen(rng):
    c = gen_data(rng, nan=rng.random() < 0.2)
    ops = []
    for _ in range(rng.randint(2, 5)):
        o = gen_fn(rng, gen_lags(rng, {"t": c["t"]}))
        ops.append({"op": rng.choice(["auto", "auto", "new", "same", "same"]), "set": {k: o.get(k) for k in ("min", "max", "res", "alpha", "sel", "wf")},
                    "clear": rng.random() < 0.4, "std": rng.random() < 0.6})
    c["ops"] = ops
    return c


def p16_directed():
    out = []
    d = [c for c in std_directed() if 1 < c["t"][-1] - c["t"][0] < 100]
    for c in d[::3]:
        o = {k: c.get(k) for k in ("min", "max", "res", "alpha", "sel", "wf")}
        e = {"sel": "natural", "wf": "fractional"}
        base = {"t": c["t"], "data": c["data"]}
        seq = [{"op": "auto", "set": e}, {"op": "auto", "set": dict(o, res=2.0, alpha=0.3)}, {"op": "auto", "set": e}, {"op": "same", "set": o}, {"op": "same", "set": dict(o, res=0.125)},
               {"op": "same", "set": dict(e, max=1.0, min=-1.0), "std": True}, {"op": "same", "set": e, "std": True, "clear": True}, {"op": "same", "set": o, "std": True}, {"op": "new", "set": o}, {"op": "auto", "set": o}]
        out.append(dict(base, ops=seq))
    # another object in between whose times and values agree with this one's in size, ends, median, gap, mean or sum
    t = [0.0, 1.0, 2.0, 4.0, 4.5, 8.0, 9.0]
    x = [1.0, -2.0, 0.5, 3.0, 7.0, -1.0, 2.5]
    for t2, x2 in ((t, [1.0, 3.0, 0.5, -2.0, 7.0, -1.0, 2.5]), ([0.0, 1.5, 3.5, 4.0, 4.5, 7.0, 9.0], x), ([0.0, 0.5, 2.0, 4.0, 5.0, 8.0, 9.0], [1.0, 7.0, 3.0, 0.5, -2.0, -1.0, 2.5]),
                   ([0.0, 1.015625, 2.0, 4.0, 4.5, 8.015625, 9.0], x), (t, [-v for v in x]), (t, [v + 1.0 for v in x]), ([v + 3.0 for v in t], x[::-1]), ([v * 2 for v in t], x)):
        for sel, wf in ((None, None), ("natural", "gaussian"), ("fast", "fractional")):
            o = {"min": -2.25, "max": 3.75, "res": 0.75, "sel": sel, "wf": wf}
            oth = {"op": "other", "set": o, "t": t2, "data": [x2]}
            out.append({"t": t, "data": [x], "ops": [{"op": "auto", "set": o, "ref": True}, oth, {"op": "auto", "set": o, "ref": True}, {"op": "same", "set": o, "ref": True}, oth, {"op": "same", "set": dict(o, alpha=0.25), "ref": True},
                                                      {"op": "same", "set": dict(o, alpha=4.0), "ref": True}, {"op": "new", "set": o, "ref": True}, oth, {"op": "auto", "set": dict(o, alpha=4.0), "ref": True}]})
            for lag in (-1.0, 0.25):
                o = {"min": lag, "max": lag, "res": 0.75, "sel": sel, "wf": wf}
                oth = {"op": "other", "set": o, "t": t2, "data": [x2]}
                out.append({"t": t, "data": [x], "ops": [{"op": "auto", "set": o, "ref": True}, oth, {"op": "auto", "set": dict(o, alpha=1.0), "ref": True}, {"op": "auto", "set": dict(o, alpha=2.0), "ref": True}, oth, {"op": "same", "set": o, "ref": True}]})
            out.append({"t": t, "data": [x, x2[::-1]], "ops": [{"op": "auto", "set": o, "ref": True}, dict(oth, data=[x2[::-1], x]), {"op": "auto", "set": o, "ref": True}]})
    for c in large_cases() + [c for c in big_cases() if len(c["t"]) < 10]:
        o = {k: c.get(k) for k in ("min", "max", "res", "alpha", "sel", "wf")}
        std = dict(o, sel=None, wf=None, max=o["max"] if o.get("max") is None else o["max"] / 2)
        out.append({"t": c["t"], "data": c["data"], "ops": [{"op": "auto", "set": o}, {"op": "same", "set": std, "std": True}, {"op": "same", "set": o}, {"op": "auto", "set": o}]})
    return out


# ---------------------------------------------------------------- C17
def p17(c):
    s = make(c)
    st = settings(c)

    def corr():
        k = Correlator(s.data)
        SACF.set_up_correlation(k, c.get("min"), c.get("max"), c.get("res"), c.get("alpha"))
        return k
    a, b = corr(), corr()
    a.calculateStandardCorrelation()
    SACF.find_correlation(b, "natural", "fractional")
    la, lb = list(a.lag_timeseries()), list(b.lag_timeseries())
    need(len(la) == len(lb), "compiled path gives %d lags, general path %d", len(la), len(lb))
    need(same_list(la, lb), "the lags of the two paths differ")
    ra, rb = [list(r) for r in a.correlations()], [list(r) for r in b.correlations()]
    need(len(ra) == len(rb), "compiled path gives %d rows, general path %d", len(ra), len(rb))
    for j in range(len(ra)):
        need(len(ra[j]) == len(rb[j]), "row lengths differ: %d and %d", len(ra[j]), len(rb[j]))
        for i in range(len(ra[j])):
            need((isnan(ra[j][i]) and isnan(rb[j][i])) or close(ra[j][i], rb[j][i], 1e-12 * (1 + abs(rb[j][i]))), "dataset %d, lag %r: compiled %r, general %r", j, la[i], ra[j][i], rb[j][i])
    lags, cor = call(s, dict(c, sel=None, wf=None))
    need(same_list(lags, la) and same_rows(rows_of(c, cor), ra), "autocorrelation() differs from the compiled path")
    if c.get("sel"):
        o = call(s, c)
        need(same_list(o[0], la), "%s/%s changes the lag grid", c["sel"], c["wf"])
        rr = rows_of(c, o[1])
        need(len(rr) == len(ra) and all(len(x) == len(y) for x, y in zip(rr, ra)), "%s/%s changes the shape", c["sel"], c["wf"])
        if all(not isnan(x) for r in c["data"] for x in r) and all(y > x for x, y in zip(c["t"], c["t"][1:])) and st["alpha"] > 0:
            check_values(c, la, rr, only=set(range(0, len(la), 1 + len(la) // 12)) | corners(len(la)))


def p17_gen(rng):
    return corr_gen(rng, nan=rng.random() < 0.2, dup=rng.random() < 0.2, const_ok=rng.random() < 0.1)


def corr_directed():
    return std_directed() + big_cases() + large_cases()


PROPS = {
    "C01": (p01, p01_gen, p01_directed), "C02": (p02, p02_gen, p02_directed), "C03": (p03, p03_gen, p03_directed),
    "C04": (p04, p04_gen, p04_directed), "C05": (p05, p05_gen, p05_directed), "C06": (p06, p06_gen, p06_directed),
    "C07": (p07, corr_gen, p07_directed),
    "C08": (lambda c: sel_check(c, "natural"), sel_gen("natural"), sel_directed),
    "C09": (lambda c: sel_check(c, "fast"), sel_gen("fast"), sel_directed),
    "C10": (p10, p10_gen, p10_directed), "C11": (p11, corr_gen, lambda: corr_directed() + [huge_case()]), "C12": (p12, p12_gen, lambda: std_directed() + [c for c in large_cases() if len(c["t"]) <= 1100]),
    "C13": (p13, p13_gen, p13_directed), "C14": (p14, p14_gen, p14_directed), "C15": (p15, p15_gen, p15_directed),
    "C16": (p16, p16_gen, p16_directed), "C17": (p17, p17_gen, corr_directed),
}


def run_one(prop, case):
    try:
        PROPS[prop][0](case)
        return None
    except Bad as e:
        return str(e)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        return "unexpected %s: %s (%s)" % (type(e).__name__, e, tb[-1][2])


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        signal.alarm(120)
        m = run_one(r["property"], r["case"])
        print("FAILS: " + m if m else "holds")
        sys.exit(1 if m else 0)
    prop, seed, budget, out, cur = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4], sys.argv[5]
    fails, n, samples, keys = [], 0, [], set()
    t0 = time.time()
    rng = random.Random("%s/%d" % (prop, seed))
    directed = PROPS[prop][2]()
    directed.sort(key=lambda c: len(json.dumps(c)) > 4000)  # small ones first
    part, parts = [int(x) for x in os.environ.get("SACF_PART", "0/1").split("/")]
    directed = directed[part::parts]
    nd = len(directed)
    i, t1 = 0, None
    while True:
        if i < nd:
            case = directed[i]
        else:
            t1 = t1 or time.time()
            if time.time() - t1 > budget:
                break
            case = PROPS[prop][1](rng)
        i += 1
        text = json.dumps(case)
        with open(cur, "w") as f:
            f.write(text)
        signal.alarm(60)
        m = run_one(prop, json.loads(text))
        signal.alarm(0)
        n += 1
        keys.add(hash(text))
        if n in (1, nd // 2, nd + 1):
            samples.append(text[:400])
        if m:
            fails.append({"property": prop, "case": case, "message": m})
            break
        if i <= nd and time.time() - t0 > 240:
            i = nd
    json.dump({"evaluations": n, "distinct": len(keys), "directed": min(nd, n), "fails": fails, "samples": samples, "wall": time.time() - t0}, open(out, "w"))


if __name__ == "__main__":
    main()
