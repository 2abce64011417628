"""Values of the symbolic executor: terms, doubles with a not-a-number flag, vectors as lambdas, pointers, iterators."""
from terms import *
import terms as t_

UNSIGNED_MOD = 2 ** 64


class Unsupported(Exception):
    pass


class D:
    """a double: real value, plus a flag that is true when it is NaN or not finite"""
    __slots__ = ("v", "bad")

    def __init__(self, v, bad=FALSE):
        self.v, self.bad = toR(v), bad

    def __repr__(self):
        return "D(%r%s)" % (self.v, "" if self.bad is FALSE else ", bad=%r" % self.bad)


IV = "$i"


class Vec:
    """length and body; body is a Value over the private index variable iv.  op/base keep the way it was made."""
    __slots__ = ("len", "iv", "body", "et", "op")

    def __init__(self, ln, iv, body, et, op=None):
        self.len, self.iv, self.body, self.et, self.op = ln, iv, body, et, op

    def get(self, i):
        return vsubst(self.body, {self.iv: i})

    def __repr__(self):
        return "Vec[%r](%r. %r)" % (self.len, self.iv, self.body)


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return "Obj %s %r" % (self.cls, self.f)


class LV:
    """location: memory key and path of ('f', name) / ('i', index term).  A reference or pointer to an element also
    carries the containers it lies in with their lengths when it was made (held)"""
    __slots__ = ("key", "path", "held")

    def __init__(self, key, path=(), held=()):
        self.key, self.path, self.held = key, tuple(path), held

    def f(self, name):
        return LV(self.key, self.path + (("f", name),))

    def i(self, idx):
        return LV(self.key, self.path + (("i", idx),))

    def same(self, o):
        return self.key == o.key and len(self.path) == len(o.path) and all(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1]) for a, b in zip(self.path, o.path))

    def __repr__(self):
        return "%s%s" % (self.key, "".join("." + str(x[1]) if x[0] == "f" else "[%r]" % x[1] for x in self.path))


class Ptr:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class Ref(Ptr):
    pass


class Iter:
    """position in the container lv; n: length of the container when the iterator was made (-1: invalidated since)"""
    __slots__ = ("lv", "idx", "n")

    def __init__(self, lv, idx, n=None):
        self.lv, self.idx, self.n = lv, idx, n


class Func:
    """callable value: fn(executor, state, [values]) -> value"""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class Opaque:
    __slots__ = ("what", "data")

    def __init__(self, what, data=None):
        self.what, self.data = what, data

    def __repr__(self):
        return "Opaque(%s)" % self.what


VOID = Opaque("void")
POISON = Opaque("a value that differs between paths")


# ------------------------------------------------------------------ generic operations
def vsubst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, D):
        a, b = subst(v.v, m), subst(v.bad, m)
        return v if a is v.v and b is v.bad else D(a, b)
    if isinstance(v, Vec):
        ln = subst(v.len, m)
        bd = vsubst(v.body, m)
        if ln is v.len and bd is v.body:
            return v
        return Vec(ln, v.iv, bd, v.et, opmap(v.op, lambda x: vsubst(x, m)))
    if isinstance(v, Obj):
        return Obj(v.cls, {k: vsubst(x, m) for k, x in v.f.items()})
    if isinstance(v, Ref):
        return Ref(lvsubst(v.lv, m))
    if isinstance(v, Ptr):
        return Ptr(lvsubst(v.lv, m))
    if isinstance(v, Iter):
        return Iter(lvsubst(v.lv, m), subst(v.idx, m), None if v.n is None else subst(v.n, m))
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, list):
        return [vsubst(x, m) for x in v]
    if hasattr(v, "vmap"):
        return v.vmap(lambda x: vsubst(x, m))
    return v


def opmap(op, f):
    if op is None:
        return None
    if op[0] in ("sym", "empty", "fill", "fn"):
        return ("fn",)
    return tuple(f(x) if isinstance(x, (T, D, Vec, Obj)) else x for x in op)


def vfsubst(v, fm):
    """replace applications of symbols by functions, in a value"""
    if isinstance(v, T):
        return fsubst(v, fm)
    if isinstance(v, D):
        return D(fsubst(v.v, fm), fsubst(v.bad, fm))
    if isinstance(v, Vec):
        return Vec(fsubst(v.len, fm), v.iv, vfsubst(v.body, fm), v.et, opmap(v.op, lambda x: vfsubst(x, fm)))
    if isinstance(v, Obj):
        return Obj(v.cls, {k: vfsubst(x, fm) for k, x in v.f.items()})
    if isinstance(v, Iter):
        return Iter(lvfsubst(v.lv, fm), fsubst(v.idx, fm), None if v.n is None else fsubst(v.n, fm))
    if isinstance(v, Ref):
        return Ref(lvfsubst(v.lv, fm))
    if isinstance(v, Ptr):
        return Ptr(lvfsubst(v.lv, fm))
    if isinstance(v, tuple):
        return tuple(vfsubst(x, fm) for x in v)
    if hasattr(v, "vmap"):
        return v.vmap(lambda x: vfsubst(x, fm))
    return v


def lvfsubst(lv, fm):
    return LV(lv.key, tuple((a, fsubst(b, fm)) if a == "i" else (a, b) for a, b in lv.path),
              tuple((lvfsubst(c, fm), fsubst(n, fm)) for c, n in lv.held))


def lvsubst(lv, m):
    return LV(lv.key, tuple((a, subst(b, m)) if a == "i" else (a, b) for a, b in lv.path),
              tuple((lvsubst(c, m), subst(n, m)) for c, n in lv.held))


def vocc(v, names):
    """does the value mention one of the variables / function names"""
    if isinstance(v, T):
        for x in atoms_of(v).values():
            if (x.op == "var" and x.a[0] in names) or (x.op == "app" and x.a[0] in names):
                return True
        return False
    if isinstance(v, D):
        return vocc(v.v, names) or vocc(v.bad, names)
    if isinstance(v, Vec):
        return vocc(v.len, names) or vocc(v.body, names)
    if isinstance(v, Obj):
        return any(vocc(x, names) for x in v.f.values())
    if isinstance(v, Iter):
        return vocc(v.idx, names) or v.n is not None and vocc(v.n, names) or any(vocc(b, names) for a, b in v.lv.path if a == "i")
    if isinstance(v, Ptr):
        return any(vocc(b, names) for a, b in v.lv.path if a == "i")
    if isinstance(v, (tuple, list)):
        return any(vocc(x, names) for x in v)
    if hasattr(v, "vmap"):
        found = []
        v.vmap(lambda x: found.append(vocc(x, names)) or x)
        return any(found)
    return False


def identical(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, D):
        return a.v is b.v and a.bad is b.bad
    if isinstance(a, Vec):
        if a.len is not b.len:
            return False
        return identical(a.body, vsubst(b.body, {b.iv: a.iv}))
    if isinstance(a, Obj):
        return a.f.keys() == b.f.keys() and all(identical(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Iter):
        return a.lv.same(b.lv) and a.idx is b.idx and a.n is b.n
    if isinstance(a, Ptr):
        return a.lv.same(b.lv) and len(a.lv.held) == len(b.lv.held) and all(x[1] is y[1] for x, y in zip(a.lv.held, b.lv.held))
    if isinstance(a, Opaque):
        return a.what == b.what and a.data is b.data
    if hasattr(a, "parts"):
        p, q = a.parts(), b.parts()
        return len(p) == len(q) and all(x is y or identical(x, y) for x, y in zip(p, q))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    return False


SPECIAL = ((), None)       # value classes of the Python front end and how they are merged


def vite(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if identical(a, b):
        return a
    if isinstance(a, SPECIAL[0]) or isinstance(b, SPECIAL[0]):
        return SPECIAL[1](c, a, b)
    if isinstance(a, D) or isinstance(b, D):
        if not (isinstance(a, (D, T)) and isinstance(b, (D, T))):
            return POISON
        a, b = asD(a), asD(b)
        return D(ite(c, a.v, b.v), ite(c, a.bad, b.bad))
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, Vec) and isinstance(b, Vec):
        iv = a.iv
        bb = vsubst(b.body, {b.iv: iv})
        return Vec(ite(c, a.len, b.len), iv, vite(c, a.body, bb), a.et, ("ite", c, a, b))
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls != b.cls or a.f.keys() != b.f.keys():
            return POISON
        return Obj(a.cls, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Iter) and isinstance(b, Iter) and a.lv.same(b.lv):
        if (a.n is None) != (b.n is None):
            return POISON
        return Iter(a.lv, ite(c, a.idx, b.idx), None if a.n is None else ite(c, a.n, b.n))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    return POISON


def asD(v):
    if isinstance(v, D):
        return v
    if isinstance(v, T):
        if v.s == "B":
            return D(ite(v, rnum(1), rnum(0)))
        return D(v)
    raise Unsupported("not a number: %r" % (v,))


# ------------------------------------------------------------------ vectors
def new_iv():
    return fresh(IV, "I")


def default(et):
    if et == "d":
        return D(rnum(0))
    if et == "i":
        return num(0)
    if et == "b":
        return FALSE
    if isinstance(et, tuple):
        return vec_empty(et[1])
    raise Unsupported("default value of " + str(et))


def vec_empty(et):
    v = new_iv()
    return Vec(num(0), v, default(et), et, ("empty",))


def vec_fill(n, val, et):
    v = new_iv()
    return Vec(n, v, val, et, ("fill",))


def vec_fn(n, fn, et, op=None):
    v = new_iv()
    return Vec(n, v, fn(v), et, op or ("fn",))


def vec_push(b, val):
    v = b.iv
    if is_num(b.len) == 0:
        return Vec(num(1), v, val, b.et, ("push", b, val))
    return Vec(add(b.len, num(1)), v, vite(lt(v, b.len), b.body, val), b.et, ("push", b, val))


def vec_store(b, i, val):
    v = b.iv
    return Vec(b.len, v, vite(eq(v, i), val, b.body), b.et, ("store", b, i, val))


def vec_block(b, lo, n, fn):
    """overwrite [lo, lo+n) with fn(0..n-1)"""
    v = b.iv
    k = new_iv()
    val = fn(k)
    return Vec(b.len, v, vite(and_(le(lo, v), lt(v, add(lo, n))), vsubst(val, {k: sub(v, lo)}), b.body), b.et, ("block", b, lo, n, k, val))


def vec_append(b, n, fn):
    v = b.iv
    k = new_iv()
    val = fn(k)
    if is_num(b.len) == 0:
        return Vec(n, v, vsubst(val, {k: v}), b.et, ("append", b, n, k, val))
    return Vec(add(b.len, n), v, vite(lt(v, b.len), b.body, vsubst(val, {k: sub(v, b.len)})), b.et, ("append", b, n, k, val))


def vec_resize(b, n, val):
    v = b.iv
    return Vec(n, v, vite(lt(v, b.len), b.body, val), b.et, ("resize", b, n, val))


def vec_sym(name, et, deps=(), flags=True):
    """fresh symbolic vector; element functions depend on deps (terms)"""
    v = new_iv()
    nm = fresh_name(name)
    NN_APPS.add(nm + ".len")
    ln = app(nm + ".len", deps, "I") if deps else declare_nonneg(var(nm + ".len", "I"))
    return Vec(ln, v, sym_elem(nm, et, tuple(deps) + (v,), flags), et, ("sym", nm))


def sym_elem(nm, et, args, flags=True):
    if et == "d":
        return D(app(nm + ".v", args, "R"), app(nm + ".nan", args, "B") if flags else FALSE)
    if et == "i":
        return app(nm + ".i", args, "I")
    if et == "b":
        return app(nm + ".b", args, "B")
    if isinstance(et, tuple):
        v = new_iv()
        NN_APPS.add(nm + ".len2")
        return Vec(app(nm + ".len2", args, "I"), v, sym_elem(nm + ".e", et[1], args + (v,), flags), et[1], ("sym", nm))
    raise Unsupported("symbolic element of " + str(et))


# ------------------------------------------------------------------ equality goals
def veq_goals(a, b, label=""):
    """list of (label, vars, formula): a and b are observably equal"""
    if a is b:
        return []
    if isinstance(a, D) or isinstance(b, D):
        a, b = asD(a), asD(b)
        out = []
        out.append((label + " (NaN)", (), iff(a.bad, b.bad)))
        out.append((label, (), or_(a.bad, b.bad, eq(a.v, b.v))))
        return [g for g in out if g[2] is not TRUE]
    if isinstance(a, T) and isinstance(b, T):
        g = eq(a, b)
        return [(label, (), g)] if g is not TRUE else []
    if isinstance(a, Vec) and isinstance(b, Vec):
        out = []
        g = eq(a.len, b.len)
        if g is not TRUE:
            out.append((label + " length", (), g))
        i = declare_nonneg(fresh("$k", "I"))
        for l, vs, f in veq_goals(a.get(i), b.get(i), label + "[i]"):
            out.append((l, (i,) + vs, or_(lt(i, num(0)), le(b.len, i), f)))
        return out
    if isinstance(a, Obj) and isinstance(b, Obj):
        out = []
        for k in b.f:
            if k not in a.f:
                raise Unsupported("field " + k)
            out += veq_goals(a.f[k], b.f[k], label + "." + k)
        return out
    if isinstance(a, Iter) and isinstance(b, Iter) and a.lv.same(b.lv):
        return veq_goals(a.idx, b.idx, label) + (veq_goals(a.n, b.n, label + " container length") if a.n is not b.n else [])
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return [] if a.lv.same(b.lv) else [(label, (), FALSE)]
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return [(label + " length", (), FALSE)]
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += veq_goals(x, y, "%s[%d]" % (label, i))
        return out
    if identical(a, b):
        return []
    if type(a) is type(b) and not isinstance(a, Opaque):
        raise Unsupported("comparison of " + type(a).__name__)
    return [(label + " kind", (), FALSE)]


def vunder(v, c):
    """v as it is where the condition c holds (conditions inside v that c decides are replaced)"""
    parts = [v] if isinstance(v, T) else [v.v, v.bad] if isinstance(v, D) else []
    m, seen = {}, set()
    for t in parts:
        for x in atoms_of(t).values():
            if x.op == "ite":
                st = [x.a[0]]
            elif x is t and x.s == "B":
                st = [x]
            else:
                continue
            while st:
                y = st.pop()
                if y.id in seen or y in (TRUE, FALSE):
                    continue
                seen.add(y.id)
                if not y.fv:
                    if and_(c, y) is c:
                        m[y] = TRUE
                        continue
                    if and_(c, y) is FALSE:
                        m[y] = FALSE
                        continue
                if y.op in ("and", "or", "not"):
                    st.extend(y.a)
    return vsubst(v, m) if m else v
