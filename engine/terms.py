"""Hash-consed first-order terms with polynomial normal forms and binder terms.

sorts: I (mathematical integers), R (reals), B.
ops:   poly   args = ((monomial, coeff), ...), monomial = tuple of atoms (sorted by id, repeated for powers)
       var, app(name; args), ite, inv (real reciprocal, unspecified at 0), floor
       le (p <= 0), lt (p < 0, reals only), eq (p == 0), not, and, or, true, false
       binders over $bK (K larger than any bound index inside the body):
         sum(body, n)          sum_{0<=b<n} body          exists(body, n)   exists 0<=b<n. body
         first(body, n)        least b in [0,n) with body, else max(n,0)
         least(body)           least b >= 0 with body (existence is a proof obligation of whoever introduces it)
         minf(filter, val, init, n)   minimum of init and val(b) over 0<=b<n with filter(b)
         nth(body, j)          position of the j-th (from 0) b >= 0 with body
"""
from fractions import Fraction
from math import gcd

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "a", "s", "id", "bmax", "fv", "_nn")

    def __repr__(self):
        return show(self)


def mk(op, a, s):
    k = (op, a, s)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.s = op, a, s
        _n[0] += 1
        t.id = _n[0]
        t._nn = None
        t.bmax = -1      # largest bound-variable index occurring anywhere (for choosing fresh binders)
        t.fv = None
        b, fb = -1, frozenset()
        for c in children(t):
            if c.bmax > b:
                b = c.bmax
            if c.fv:
                fb = fb | c.fv
        if op == "var" and a[0].startswith("$b"):
            i = int(a[0][2:])
            b = i
            fb = frozenset([t.id])
        if op in BIND:
            i = t.a[-1]
            if i > b:
                b = i
            fb = fb - {bvar(i).id} if fb else fb
        t.bmax, t.fv = b, fb
        _tab[k] = t
    return t


# binder ops: last argument is the bound index (python int); terms listed by BIND[op] = positions of bodies
BIND = {"sum": (0,), "exists": (0,), "first": (0,), "least": (0,), "minf": (0, 1), "nth": (0,)}


def children(t):
    op = t.op
    if op == "poly":
        for m, _ in t.a:
            for x in m:
                yield x
    elif op == "var":
        return
    elif op == "app":
        for x in t.a[1]:
            yield x
    elif op in BIND:
        for x in t.a[:-1]:
            yield x
    else:
        for x in t.a:
            yield x


def var(name, s):
    return mk("var", (name,), s)


_bv = {}


def bvar(i):
    if i not in _bv:
        _bv[i] = var("$b%d" % i, "I")
    return _bv[i]


_fresh = [0]


def fresh(name, s):
    _fresh[0] += 1
    return var("%s!%d" % (name, _fresh[0]), s)


def fresh_name(name):
    _fresh[0] += 1
    return "%s!%d" % (name, _fresh[0])


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")

# ------------------------------------------------------------------ polynomials


def _p(t):
    """dict monomial -> coeff"""
    if t.op == "poly":
        return dict(t.a)
    return {(t,): 1}


def _c(c):
    """coefficient: an int when it is whole, else a Fraction"""
    if type(c) is int:
        return c
    c = Fraction(c)
    return c.numerator if c.denominator == 1 else c


def _mkpoly(d, s):
    d = {m: (c if type(c) is int else _c(c)) for m, c in d.items() if c != 0}
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and c == 1 and (m[0].s == s):
            return m[0]
        return mk("poly", ((m, c),), s)
    items = tuple(sorted(d.items(), key=_monokey))
    return mk("poly", items, s)


def _monokey(mc):
    m = mc[0]
    return (m[0].id,) if len(m) == 1 else tuple([x.id for x in m])


def num(c, s="I"):
    return _mkpoly({(): _c(c)}, s)


def rnum(c):
    return num(c, "R")


def is_num(t):
    if t.op == "poly":
        if not t.a:
            return 0
        if len(t.a) == 1 and t.a[0][0] == ():
            return t.a[0][1]
    return None


def _sort2(a, b):
    return "R" if (a.s == "R" or b.s == "R") else "I"


def add(*ts):
    d, s = {}, "I"
    for t in ts:
        if t.s == "R":
            s = "R"
        for m, c in _p(t).items():
            d[m] = d.get(m, 0) + c
    return _mkpoly(d, s)


def scale(c, t):
    c = _c(c)
    return _mkpoly({m: c * k for m, k in _p(t).items()}, t.s if c.denominator == 1 else "R")


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _simp_mono(m):
    return tuple(sorted(m, key=lambda x: x.id))


def mul(a, b):
    s = _sort2(a, b)
    pa, pb = _p(a), _p(b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _simp_mono(m1 + m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d, s)


def toR(t):
    if t.s == "R":
        return t
    return _mkpoly(_p(t), "R")


def is_intval(t):
    return all(c.denominator == 1 and all(x.s == "I" for x in m) for m, c in _p(t).items())


def toI(t):
    """integer-valued real term as an integer term"""
    return _mkpoly(_p(t), "I")


def floor(t):
    if t.s == "I":
        return t
    if is_intval(t):
        return toI(t)
    c = is_num(t)
    if c is not None:
        return num(c.numerator // c.denominator)
    ip = {m: c for m, c in _p(t).items() if c.denominator == 1 and all(x.s == "I" for x in m)}
    rest = {m: c for m, c in _p(t).items() if m not in ip}
    if ip and rest:
        return add(_mkpoly(ip, "I"), floor(_mkpoly(rest, "R")))
    return mk("floor", (t,), "I")


def inv(t):
    t = toR(t)
    c = is_num(t)
    if c is not None and c != 0:
        return rnum(Fraction(1) / c)
    p = _p(t)
    if len(p) == 1:
        (m, c), = p.items()
        r = rnum(Fraction(1) / c)
        for x in m:
            r = mul(r, x.a[0] if x.op == "inv" else mk("inv", (toR(x),), "R"))
        return r
    # make the leading coefficient 1 so that scalings agree
    lead = t.a[-1][1]
    if lead != 1:
        return scale(Fraction(1) / lead, inv(scale(Fraction(1) / lead, t)))
    return mk("inv", (t,), "R")


def div(a, b):
    return mul(toR(a), inv(b))


def idiv(a, b):
    """floor division of integers (b > 0 where used)"""
    ca, cb = is_num(a), is_num(b)
    if ca is not None and cb is not None and cb != 0:
        return num(ca // cb)
    if cb == 1:
        return a
    if cb is not None and cb != 0:
        whole = {m: c for m, c in _p(a).items() if c % cb == 0}
        rest = {m: c for m, c in _p(a).items() if c % cb != 0}
        if whole and rest:
            r = idiv(_mkpoly(rest, "I"), b)
            return add(_mkpoly({m: Fraction(c) / cb for m, c in whole.items()}, "I"), r)
        if whole:
            return _mkpoly({m: Fraction(c) / cb for m, c in whole.items()}, "I")
    return app("idiv", (a, b), "I")


def imod(a, b):
    return sub(a, mul(b, idiv(a, b)))


# ------------------------------------------------------------------ booleans
def B(x):
    return TRUE if x else FALSE


_negs, _ands, _ors = {}, {}, {}


def not_(t):
    r = _negs.get(t.id)
    if r is None:
        r = _negs[t.id] = _not(t)
    return r


def and_(*ts):
    k = tuple([t.id for t in ts])
    r = _ands.get(k)
    if r is None:
        r = _ands[k] = _and(ts)
    return r


def or_(*ts):
    k = tuple([t.id for t in ts])
    r = _ors.get(k)
    if r is None:
        r = _ors[k] = _or(ts)
    return r


def _bounds(out, seen, sg):
    """of comparisons of one polynomial with constants keep the strongest (sg = 1, conjunction) or the weakest"""
    if sum(1 for t in out if t.op == "le") < 2:
        return out
    best = {}
    for t in out:
        if t.op == "le":
            d = _p(t.a[0])
            k = (frozenset(x for x in d.items() if x[0] != ()), t.a[0].s)
            c = d.get((), 0)
            o = best.get(k)
            if o is None or (c - o[0]) * sg > 0:
                best[k] = (c, t)
    keep = {t.id for _, t in best.values()}
    r = [t for t in out if t.op != "le" or t.id in keep]
    for t in out:
        if t.op == "le" and t.id not in keep:
            seen.discard(t.id)
    return r


def _not(t):
    op = t.op
    if op == "true":
        return FALSE
    if op == "false":
        return TRUE
    if op == "not":
        return t.a[0]
    if op == "le":
        p = t.a[0]
        if p.s == "I":
            return le0(sub(num(1), p))
        return lt0(neg(p))
    if op == "lt":
        return le0(neg(t.a[0]))
    if op == "and":
        return or_(*[not_(x) for x in t.a])
    if op == "or":
        return and_(*[not_(x) for x in t.a])
    return mk("not", (t,), "B")


def _and(ts):
    out, seen = [], set()
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t.op == "and":
            st.extend(reversed(t.a))
            continue
        if t is TRUE or t.id in seen:
            continue
        if t is FALSE:
            return FALSE
        seen.add(t.id)
        out.append(t)
    for t in out:
        if not_(t).id in seen:
            return FALSE
    out = _bounds(out, seen, 1)
    # unit simplification of nested ors
    ch = True
    while ch:
        ch = False
        for i, t in enumerate(out):
            if t.op == "or":
                if any(x.id in seen for x in t.a):
                    out.pop(i)
                    seen.discard(t.id)
                    ch = True
                    break
                ne = [x for x in t.a if not_(x).id not in seen]
                if len(ne) < len(t.a):
                    return and_(*(out[:i] + [or_(*ne)] + out[i + 1:]))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk("and", tuple(out), "B")


def _or(ts):
    out, seen = [], set()
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t.op == "or":
            st.extend(reversed(t.a))
            continue
        if t is FALSE or t.id in seen:
            continue
        if t is TRUE:
            return TRUE
        seen.add(t.id)
        out.append(t)
    for t in out:
        if not_(t).id in seen:
            return TRUE
    out = _bounds(out, seen, -1)
    ch = True
    while ch:
        ch = False
        for i, t in enumerate(out):
            if t.op == "and":
                if any(x.id in seen for x in t.a):
                    out.pop(i)
                    seen.discard(t.id)
                    ch = True
                    break
                ne = [x for x in t.a if not_(x).id not in seen]
                if len(ne) < len(t.a):
                    return or_(*(out[:i] + [and_(*ne)] + out[i + 1:]))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # resolution: or(and(x, Y), and(!x, Y)) = Y, and or(and(x, Y), and(!x, Y, Z)) keeps only what is needed
    if len(out) <= 12:
        for i in range(len(out)):
            for j in range(i):
                p, q = _lits(out[i]), _lits(out[j])
                if len(p) != len(q):
                    continue
                dp = [x for x in p if x not in q]
                dq = [x for x in q if x not in p]
                if len(dp) == 1 and len(dq) == 1 and not_(p[dp[0]]).id == dq[0]:
                    rest = and_(*[y for k, y in p.items() if k != dp[0]])
                    return or_(*([out[k] for k in range(len(out)) if k != i and k != j] + [rest]))
                if not dp:
                    return or_(*[out[k] for k in range(len(out)) if k != j])
    out.sort(key=lambda x: x.id)
    return mk("or", tuple(out), "B")


def _lits(t):
    return {x.id: x for x in (t.a if t.op == "and" else (t,))}


def imp(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    return or_(and_(a, b), and_(not_(a), not_(b)))


def _norm(p, sign):
    """scale so coefficients are coprime integers; sign: may flip"""
    its = p.a
    if all(type(c) is int for _, c in its):
        g = 0
        for m, c in its:
            g = gcd(g, abs(c))
            if g == 1:
                break
        f = 1 if g in (0, 1) else Fraction(1, g)
        return -f if sign and its and its[-1][1] < 0 else f
    den = 1
    for _, c in its:
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for m, c in its:
        g = gcd(g, abs(int(c * den)))
    f = Fraction(den, g or 1)
    if sign and its and its[-1][1] < 0:
        f = -f
    return f


def aspoly(t):
    """as poly-op term (atoms wrapped)"""
    if t.op == "poly":
        return t
    return mk("poly", (((t,), 1),), t.s)


def le0(p):
    c = is_num(p)
    if c is not None:
        return B(c <= 0)
    q = aspoly(p)
    f = _norm(q, False)
    d = {m: c * f for m, c in q.a}
    if p.s == "I":
        g = 0
        for m, c in d.items():
            if m != ():
                g = gcd(g, abs(int(c)))
        if g > 1:
            k = d.get((), 0)
            d = {m: int(c) // g for m, c in d.items() if m != ()}
            k = Fraction(-((-k) // g))  # ceil: sum <= -k/g  ->  sum + ceil(k/g) <= 0
            if k:
                d[()] = k
    elif all(x.s == "I" for m in d for x in m):   # integer-valued comparison of reals
        return le0(_mkpoly(d, "I"))
    r = _mkpoly(d, p.s)
    if r.s == "I" and nonneg(neg(r)):
        return TRUE
    if r.s == "I" and nonneg(add(r, num(-1))):
        return FALSE
    return mk("le", (r,), "B")


def lt0(p):
    if p.s == "I":
        return le0(add(p, num(1)))
    c = is_num(p)
    if c is not None:
        return B(c < 0)
    q = aspoly(p)
    f = _norm(q, False)
    d = {m: c * f for m, c in q.a}
    if all(x.s == "I" for m in d for x in m):
        return le0(add(_mkpoly(d, "I"), num(1)))
    return mk("lt", (_mkpoly(d, "R"),), "B")


def eq(a, b):
    if a.s == "B":
        return iff(a, b)
    p = sub(a, b)
    c = is_num(p)
    if c is not None:
        return B(c == 0)
    q = aspoly(p)
    f = _norm(q, True)
    d = {m: c * f for m, c in q.a}
    s = p.s
    if s == "R" and all(x.s == "I" for m in d for x in m):
        s = "I"
    r = _mkpoly(d, s)
    if s == "I" and (nonneg(add(r, num(-1))) or nonneg(add(neg(r), num(-1)))):
        return FALSE
    return mk("eq", (r,), "B")


def ne(a, b):
    return not_(eq(a, b))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.s == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a.s != b.s:
        a, b = toR(a), toR(b)
    if c.op == "not":
        return ite(c.a[0], b, a)
    # collapse nested decisions on the same condition
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), a.s)


def app(name, args, s):
    args = tuple(args)
    return mk("app", (name, args), s)


NONNEG = set()  # ids of atoms declared >= 0


def declare_nonneg(t):
    NONNEG.add(t.id)
    t._nn = True
    return t


def nonneg(t):
    """cheap syntactic test: certainly >= 0"""
    if t._nn is not None:
        return t._nn
    r = False
    op = t.op
    if op == "poly":
        r = all(c >= 0 and (all(nonneg(x) for x in m) or (len(m) % 2 == 0 and all(m[i] is m[i + 1] for i in range(0, len(m), 2)))) for m, c in t.a)
    elif op in ("first", "least", "nth"):
        r = True
    elif op == "sum":
        r = t.s == "I" and nonneg(t.a[0])
    elif op == "ite":
        r = nonneg(t.a[1]) and nonneg(t.a[2])
    elif op == "app" and t.a[0] in NN_APPS:
        r = True
    elif op == "app" and t.a[0] == "idiv":
        r = nonneg(t.a[1][0]) and (is_num(t.a[1][1]) or 0) > 0
    elif op == "var":
        return t.id in NONNEG or t.a[0] in NN_APPS
    t._nn = r
    return r


NN_APPS = set()

# ------------------------------------------------------------------ binders


def _bind(i, body):
    """replace variable i in body by a fresh bound variable; returns (body', index)"""
    k = body.bmax + 1
    return subst(body, {i: bvar(k)}), k


def within(i, body, n):
    """body simplified under 0 <= i < n"""
    if i.op != "var":
        return body
    m = {}
    if not nonneg(i):
        a = le(num(0), i)
        if a.op == "le":
            m[a] = TRUE
            m[not_(a)] = FALSE
    a = lt(i, n)
    if a.op in ("le", "lt"):
        m[a] = TRUE
        m[not_(a)] = FALSE
    return subst(body, m) if m else body


def sum_(i, body, n):
    """sum over 0 <= i < n of body"""
    body = within(i, body, n)
    c = is_num(n)
    if c is not None and c <= 0:
        return num(0, body.s)
    if c is not None and c <= 3:
        return add(*[subst(body, {i: num(k)}) for k in range(int(c))])
    if is_num(body) == 0:
        return num(0, body.s)
    if not occurs(i, body):
        r = mul(body, n) if nonneg(n) else mul(body, ite(le(num(0), n), n, num(0)))
        return r if body.s == "I" else toR(r)
    # count-indexed sums over an enumeration become filtered sums
    cnt = as_count(n)
    if cnt is not None:
        cb, ck, m = cnt
        nt = mk("nth", (cb, i, ck), "I")
        bd = subst(body, {nt: var("$nth", "I")})
        if not occurs(i, bd):
            j = var("$nth", "I")
            return sum_(j, ite(subst(cb, {bvar(ck): j}), bd, num(0, bd.s)), m)
    # pull out constant factors common to all monomials and split the additive constant part
    if body.op == "poly" and len(body.a) > 1 and all(not (occurs_mono(i, m)) for m, c in body.a):
        pass
    b, k = _bind(i, body)
    return mk("sum", (b, n, k), body.s)


def occurs_mono(i, m):
    return any(occurs(i, x) for x in m)


def count(i, cond, n):
    return sum_(i, ite(cond, num(1), num(0)), n)


def as_count(n):
    """n == sum_{b<m} ite(c,1,0)  ->  (c, boundindex, m)"""
    if n.op == "sum" and n.a[0].op == "ite":
        c, x, y = n.a[0].a
        if is_num(x) == 1 and is_num(y) == 0:
            return c, n.a[2], n.a[1]
        if is_num(x) == 0 and is_num(y) == 1:
            return not_(c), n.a[2], n.a[1]
    return None


def nth(i, cond, j):
    if cond is TRUE:
        return j
    b, k = _bind(i, cond)
    return mk("nth", (b, j, k), "I")


def exists(i, body, n):
    body = within(i, body, n)
    c = is_num(n)
    if body is FALSE or (c is not None and c <= 0):
        return FALSE
    if c is not None and c <= 3:
        return or_(*[subst(body, {i: num(k)}) for k in range(int(c))])
    if not occurs(i, body):
        return and_(le(num(1), n), body)
    if body.op == "or":
        return or_(*[exists(i, x, n) for x in body.a])
    if body.op == "and":
        out = [x for x in body.a if not occurs(i, x)]
        if out:
            return and_(exists(i, and_(*[x for x in body.a if occurs(i, x)]), n), *out)
    cnt = as_count(n)
    if cnt is not None:
        cb, ck, m = cnt
        nt = mk("nth", (cb, i, ck), "I")
        bd = subst(body, {nt: var("$nth", "I")})
        if not occurs(i, bd):
            j = var("$nth", "I")
            return exists(j, and_(subst(cb, {bvar(ck): j}), bd), m)
    b, k = _bind(i, body)
    return mk("exists", (b, n, k), "B")


def forall(i, body, n):
    return not_(exists(i, not_(body), n))


def first(i, body, n):
    if body is TRUE:
        return num(0)
    if body is FALSE:
        return n if nonneg(n) else ite(le(num(0), n), n, num(0))
    b, k = _bind(i, body)
    return mk("first", (b, n, k), "I")


def least(i, body):
    if body is TRUE:
        return num(0)
    b, k = _bind(i, body)
    return mk("least", (b, k), "I")


def minf(i, filt, val, init, n):
    k = max(filt.bmax, val.bmax) + 1
    m = {i: bvar(k)}
    return mk("minf", (subst(filt, m), subst(val, m), init, n, k), "R")


def body_at(t, x, which=0):
    """instantiate the body of a binder term at x"""
    return subst(t.a[which], {bvar(t.a[-1]): x})


# ------------------------------------------------------------------ substitution
_sub_depth = [0]


def subst(t, m):
    """simultaneous replacement of terms (usually variables) by terms"""
    if not m:
        return t
    mm = {k.id: v for k, v in m.items()}
    return _subst(t, mm, {})


def _subst(t, mm, memo):
    r = mm.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op == "poly":
        ch = False
        for mo, c in t.a:
            for x in mo:
                if _subst(x, mm, memo) is not x:
                    ch = True
                    break
        if not ch:
            r = t
        else:
            d = {}
            for mo, c in t.a:
                p = {(): c}
                for x in mo:
                    q = {}
                    for m2, c2 in _p(_subst(x, mm, memo)).items():
                        for m1, c1 in p.items():
                            k = _simp_mono(m1 + m2)
                            q[k] = q.get(k, 0) + c1 * c2
                    p = q
                for k, c1 in p.items():
                    d[k] = d.get(k, 0) + c1
            r = _mkpoly(d, t.s)
    elif op in ("var", "true", "false"):
        r = t
    elif op == "app":
        na = tuple(_subst(x, mm, memo) for x in t.a[1])
        r = t if all(x is y for x, y in zip(na, t.a[1])) else mkapp(t.a[0], na, t.s)
    elif op in BIND:
        na = [_subst(x, mm, memo) for x in t.a[:-1]]
        if all(x is y for x, y in zip(na, t.a[:-1])):
            r = t
        else:
            k = t.a[-1]
            if any(bvar(k).id in (v.fv or ()) for v in _vals(mm)):
                # a substituted term mentions this bound variable: rename the binder first
                k2 = max([x.bmax for x in t.a[:-1]] + [v.bmax for v in _vals(mm)] + [k]) + 1
                na = [(_subst(_subst(x, {bvar(k).id: bvar(k2)}, {}), mm, {}) if i in BIND[op] else na[i]) for i, x in enumerate(t.a[:-1])]
                bv = bvar(k2)
            else:
                bv = bvar(k)
            r = rebuild(op, bv, na)
    else:
        na = [_subst(x, mm, memo) for x in t.a]
        if all(x is y for x, y in zip(na, t.a)):
            r = t
        else:
            r = _re(op, na, t.s)
    memo[t.id] = r
    return r


def _vals(mm):
    return mm.values()


def mkapp(name, args, s):
    if name == "idiv":
        return idiv(*args)
    return app(name, args, s)


def rebuild(op, bv, na):
    """canonicalise a binder: choose the smallest legal index again"""
    tmp = fresh("$t", "I")
    m = {bv: tmp}
    if op == "sum":
        return sum_(tmp, subst(na[0], m), na[1])
    if op == "exists":
        return exists(tmp, subst(na[0], m), na[1])
    if op == "first":
        return first(tmp, subst(na[0], m), na[1])
    if op == "least":
        return least(tmp, subst(na[0], m))
    if op == "minf":
        return minf(tmp, subst(na[0], m), subst(na[1], m), na[2], na[3])
    if op == "nth":
        return nth(tmp, subst(na[0], m), na[1])
    raise ValueError(op)


def _re(op, a, s):
    if op == "ite":
        return ite(*a)
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "le":
        return le0(a[0])
    if op == "lt":
        return lt0(a[0])
    if op == "eq":
        return eq(a[0], num(0, a[0].s))
    if op == "inv":
        return inv(a[0])
    if op == "floor":
        return floor(a[0])
    raise ValueError(op)


_occ = {}


def occurs(v, t):
    if v is t:
        return True
    k = (v.id, t.id)
    r = _occ.get(k)
    if r is None:
        r = any(occurs(v, c) for c in children(t))
        _occ[k] = r
    return r


def atoms_of(t, acc=None):
    """all subterms (not below binders that keep bound variables free)"""
    if acc is None:
        acc = {}
    st = [t]
    while st:
        x = st.pop()
        if x.id in acc:
            continue
        acc[x.id] = x
        st.extend(children(x))
    return acc


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    op = t.op
    if depth > 12:
        return "..."
    d = depth + 1
    if op == "poly":
        if not t.a:
            return "0"
        parts = []
        for m, c in t.a:
            f = "*".join(show(x, d) for x in m)
            cs = str(c)
            parts.append(cs if not m else (f if c == 1 else "-" + f if c == -1 else cs + "*" + f))
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if op == "var":
        return t.a[0]
    if op == "app":
        return "%s(%s)" % (t.a[0], ", ".join(show(x, d) for x in t.a[1]))
    if op == "le":
        return "%s <= 0" % show(t.a[0], d)
    if op == "lt":
        return "%s < 0" % show(t.a[0], d)
    if op == "eq":
        return "%s == 0" % show(t.a[0], d)
    if op == "not":
        return "!(%s)" % show(t.a[0], d)
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(show(x, d) for x in t.a) + ")"
    if op == "ite":
        return "(if %s then %s else %s)" % tuple(show(x, d) for x in t.a)
    if op in BIND:
        return "%s[b%d](%s)" % (op, t.a[-1], "; ".join(show(x, d) for x in t.a[:-1]))
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in t.a))


# ------------------------------------------------------------------ function substitution
def fsubst(t, fm, memo=None):
    """replace applications name(args) by fm[name](args), everywhere (also under binders)"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op in ("var", "true", "false"):
        r = fm[t.a[0]]() if op == "var" and t.a[0] in fm else t
    elif not mentions(t, fm):
        r = t
    elif op == "poly":
        tot = num(0, t.s)
        for mo, c in t.a:
            p = num(c, t.s)
            for x in mo:
                p = mul(p, fsubst(x, fm, memo))
            tot = add(tot, p)
        r = tot if t.s == "I" else toR(tot)
    elif op == "app":
        na = tuple(fsubst(x, fm, memo) for x in t.a[1])
        f = fm.get(t.a[0])
        r = f(*na) if f else mkapp(t.a[0], na, t.s)
    elif op in BIND:
        k = t.a[-1]
        v = fresh("$u", "I")
        na = []
        for i, x in enumerate(t.a[:-1]):
            if i in BIND[op]:
                na.append(fsubst(subst(x, {bvar(k): v}), fm, {}))
            else:
                na.append(fsubst(x, fm, memo))
        r = rebuild(op, v, na)
    else:
        r = _re(op, [fsubst(x, fm, memo) for x in t.a], t.s)
    memo[t.id] = r
    return r


_names = {}


def names_in(t):
    """names of variables and function symbols occurring in the term"""
    r = _names.get(t.id)
    if r is None:
        s = set()
        if t.op == "var":
            if not t.a[0].startswith("$b"):
                s.add(t.a[0])
        elif t.op == "app":
            s.add(t.a[0])
        for c in children(t):
            s |= names_in(c)
        r = frozenset(s)
        _names[t.id] = r
    return r


def mentions(t, names):
    ns = names_in(t)
    return any(x in ns for x in names)
