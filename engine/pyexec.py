"""Symbolic execution of sacf/sacf.py (Python ast of the current file) on top of the C++ executor's state, loops and contracts.

Calls into the extension modules go through the binding table (bindings.py) to the contract of the bound C++ function;
calls of Python functions use their contract when there is one and are inlined otherwise.  A generator is run by
executing its body with every `yield` replaced by one execution of the consuming loop's body."""
import ast, os
import terms as t_
from terms import *
from values import *
import values
from prover import QFact
import cexec
from cexec import Ex, State, Outs, merge, Frame, ctype, sig
from castload import REPO

NONE = Opaque("None")


class Str:
    """a string; text None: unknown but not empty (term: the C++ value it converts to)"""
    def __init__(self, text=None, term=None):
        self.text, self.term = text, term


class Opt:
    """a value that may be None"""
    def __init__(self, none, v):
        self.none, self.v = none, v

    def parts(self):
        return self.none, self.v

    def vmap(self, f):
        return Opt(f(self.none), f(self.v) if self.v is not None else None)


values.SPECIAL = ((Opt,), lambda c, a, b: optmerge(c, a, b))


class Alt:
    """one of two values of different kinds"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def parts(self):
        return self.c, self.a, self.b

    def vmap(self, f):
        return Alt(f(self.c), f(self.a), f(self.b))


class PyFn:
    """defs: values of the defaults, for a function made while another one runs"""
    def __init__(self, node, frame, name, bound=None, defs=None):
        self.node, self.frame, self.name, self.bound, self.defs = node, frame, name, bound, defs

    def vmap(self, f):
        return PyFn(self.node, self.frame, self.name, self.bound, {k: f(v) for k, v in self.defs.items()}) if self.defs else self


class PyCls:
    """a class defined in the Python sources"""
    def __init__(self, name, node):
        self.name, self.node = name, node


class CCls:
    def __init__(self, b):
        self.b = b


class CMeth:
    """method of an extension class, possibly bound to an object"""
    def __init__(self, cls, name, this=None):
        self.cls, self.name, self.this = cls, name, this


class Builtin:
    def __init__(self, name):
        self.name = name


class Gen:
    """key: where the state says whether it has been run (it can be only once)"""
    def __init__(self, fn, vals, key):
        self.fn, self.vals, self.key = fn, vals, key

    def vmap(self, f):
        return Gen(self.fn, {k: f(x) for k, x in self.vals.items()}, self.key)


class Dct:
    def __init__(self, d):
        self.d = d

    def vmap(self, f):
        return Dct({k: f(x) for k, x in self.d.items()})


def pvite(c, a, b):
    if a is NONE or b is NONE:
        return optmerge(c, a, b)
    return vite(c, a, b)


def optmerge(c, a, b):
    oa, ob = toopt(a), toopt(b)
    if oa is None or ob is None:
        return POISON
    if oa.none is TRUE and ob.none is TRUE:
        return NONE
    v = ob.v if oa.none is TRUE else oa.v if ob.none is TRUE else vite(c, oa.v, ob.v)
    if v is POISON:
        return POISON
    none = or_(and_(c, oa.none), and_(not_(c), ob.none))
    return v if none is FALSE else Opt(none, v)


def toopt(v):
    if isinstance(v, Opt):
        return v
    if v is NONE:
        return Opt(TRUE, None)
    if isinstance(v, (D, T)):
        return Opt(FALSE, v)
    return None


class PyModule:
    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(path).read())


def load(repo=REPO):
    return {f: PyModule(os.path.join(repo, "sacf", f)) for f in ("sacf.py", "__init__.py") if os.path.exists(os.path.join(repo, "sacf", f))}


def is_generator(fn):
    for n in walk_own(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


class PyFrame:
    def __init__(self, fid, fn, parent, name):
        self.fid, self.parent, self.name, self.env = fid, parent, name, {}
        self.locals = set()
        self.consumer = None
        self.tu = None
        self.this = None
        if fn is not None:
            self.nonlocals = set()
            for n in walk_own(fn):
                if isinstance(n, (ast.Nonlocal, ast.Global)):
                    self.nonlocals |= set(n.names)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.locals.add(n.id)
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.locals.add(n.name)
            self.locals -= self.nonlocals

    def lookup(self, name):
        return None


class PyEx(Ex):
    def __init__(self, prog, bindings, mods, contracts=None, pycontracts=None):
        super().__init__(prog, contracts)
        self.b, self.mods = bindings, mods
        self.pycontracts = pycontracts or {}
        self.sigmap = {}
        for fn in prog.defs.values():
            self.sigmap.setdefault(sig(prog, fn), fn)
        self.globals = {}
        self.pyclasses = {}
        self.yields = []
        self.autohint = None
        self.module()

    # ------------------------------------------------------------------ module
    def module(self):
        self.gst = State()
        self.gfr = PyFrame(next(self.nfid), None, None, "module")
        self.fr = self.gfr
        for n in self.mods["sacf.py"].tree.body:
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    nm = a.asname or a.name
                    if n.level == 1 and n.module in ("datastructure", "correlator") and a.name in self.b.classes:
                        self.globals[nm] = CCls(self.b.classes[a.name])
                    elif n.module == "typing":
                        self.globals[nm] = NONE
                    else:
                        self.globals[nm] = Opaque("import " + a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.globals[a.asname or a.name] = Opaque("module", a.name)
            elif isinstance(n, ast.FunctionDef):
                self.globals[n.name] = PyFn(n, self.gfr, n.name)
            elif isinstance(n, ast.ClassDef):
                self.globals[n.name] = PyCls(n.name, n)
                self.pyclasses[n.name] = n
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                try:
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    v = self.ev(n.value, self.gst)
                    for t in ts:
                        if isinstance(t, ast.Name):
                            self.globals[t.id] = v
                        else:
                            raise Unsupported("module-level assignment")
                except Unsupported as e:
                    for t in ts:
                        if isinstance(t, ast.Name):
                            self.globals[t.id] = Opaque("unsupported: %s" % e)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                pass
            else:
                raise Unsupported("module-level statement " + type(n).__name__)

    def pyclass_of(self, lv, st):
        v = self.read(st, lv)
        return v.cls if isinstance(v, Obj) else None

    # ------------------------------------------------------------------ values
    def truth(self, v, st):
        if isinstance(v, T):
            return v if v.s == "B" else ne(v, num(0))
        if isinstance(v, D):
            return or_(v.bad, ne(v.v, rnum(0)))
        if isinstance(v, Opt):
            return and_(not_(v.none), self.truth(v.v, st))
        if v is NONE:
            return FALSE
        if isinstance(v, Str):
            return B(v.text is None or v.text != "")
        if isinstance(v, Ptr):
            x = self.read(st, v.lv)
            if isinstance(x, Vec):
                return ne(x.len, num(0))
            return TRUE
        if isinstance(v, tuple):
            return B(len(v) > 0)
        if isinstance(v, (PyFn, CMeth, CCls, PyCls)):
            return TRUE
        if isinstance(v, Alt):
            return ite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        raise Unsupported("truth value of %r" % (v,))

    cond_value = lambda self, v: self.truth(v, self._st)

    def number(self, v, st, what="a number"):
        if isinstance(v, Opt):
            self.oblige("safety", "None is not used as a number", st, not_(v.none))
            return v.v
        if isinstance(v, (D, T)):
            return v
        raise Unsupported("%r used as %s" % (v, what))

    def deepval(self, v, st):
        """the list value behind a Python reference"""
        if isinstance(v, Ptr):
            x = self.read(st, v.lv)
            if isinstance(x, Vec):
                return x
        return v

    def mklist(self, v, st):
        if isinstance(v, Vec):
            return Ptr(self.alloc(st, v, "heap"))
        return v

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        self._st = st
        m = getattr(self, "p_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("Python expression " + type(n).__name__)
        return m(n, st)

    rv = ev

    def p_Constant(self, n, st):
        v = n.value
        if v is None or v is Ellipsis:
            return NONE
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return D(rnum(0), TRUE)
            return D(rnum(Fraction(v)))
        if isinstance(v, str):
            return Str(v)
        raise Unsupported("constant %r" % (v,))

    def p_JoinedStr(self, n, st):
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value, st)
        return Str()

    def p_Name(self, n, st):
        return self.name(n.id, st)

    def name(self, nm, st):
        f = self.fr
        while f is not None and f is not self.gfr:
            if nm in f.env:
                lv = f.env[nm]
                if lv.key not in st.mem:
                    raise Unsupported("variable %s may be unbound" % nm)
                v = st.mem[lv.key]
                if v is POISON:
                    raise Unsupported("value of %s differs between paths" % nm)
                return v
            if nm in f.locals:
                raise Unsupported("variable %s may be unbound" % nm)
            f = f.parent
        if nm in self.globals:
            v = self.globals[nm]
            if isinstance(v, Opaque) and v.what.startswith("unsupported"):
                raise Unsupported(v.what)
            return v
        if nm in ("len", "enumerate", "range", "float", "int", "abs", "min", "max", "bool", "list", "tuple", "isinstance", "print", "zip", "str", "getattr", "setattr", "hasattr", "iter", "sum", "super", "next",
                  "ValueError", "TypeError", "KeyError", "RuntimeError", "IndexError", "Exception", "AttributeError", "StopIteration"):
            return Builtin(nm)
        raise Unsupported("name " + nm)

    def p_Tuple(self, n, st):
        return tuple(self.ev(x, st) for x in n.elts)

    def p_List(self, n, st):
        vs = [self.ev(x, st) for x in n.elts]
        if not vs:
            return self.mklist(vec_empty("d"), st)
        if all(isinstance(v, (T, D)) for v in vs):
            ds = [asD(v) for v in vs]
            iv = new_iv()
            body = ds[-1]
            for k in range(len(ds) - 2, -1, -1):
                body = vite(eq(iv, num(k)), ds[k], body)
            return self.mklist(Vec(num(len(ds)), iv, body, "d"), st)
        if len(vs) == 1 and isinstance(self.deepval(vs[0], st), Vec):
            x = self.deepval(vs[0], st)
            return self.mklist(vec_fill(num(1), x, ("v", x.et)), st)
        raise Unsupported("list display")

    def p_Dict(self, n, st):
        d = {}
        for k, v in zip(n.keys, n.values):
            kv = self.ev(k, st)
            if not isinstance(kv, Str) or kv.text is None:
                raise Unsupported("dictionary key")
            d[kv.text] = self.ev(v, st)
        return Dct(d)

    def p_Lambda(self, n, st):
        fd = ast.FunctionDef(name="lambda", args=n.args, body=[ast.copy_location(ast.Return(value=n.body), n.body)], decorator_list=[], lineno=n.lineno)
        return PyFn(fd, self.fr, "lambda", defs=self.defaults(n.args, st))

    def comprehension(self, n, st, inner, result=None, first=False):
        """the equivalent function: nested loops in a scope of their own"""
        body = [inner]
        for g in reversed(n.generators):
            if g.is_async:
                raise Unsupported("asynchronous comprehension")
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            it = ast.Name(id=".0", ctx=ast.Load()) if first and g is n.generators[0] else g.iter
            body = [ast.For(target=g.target, iter=it, body=body, orelse=[])]
        if result:
            body = [ast.Assign(targets=[ast.Name(id=result, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))] + body + [ast.Return(value=ast.Name(id=result, ctx=ast.Load()))]
        fd = ast.FunctionDef(name="<comprehension>", args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=".0")] if first else [], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[], returns=None)
        ast.copy_location(fd, n)
        for x in ast.walk(fd):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, n)
        ast.fix_missing_locations(fd)
        return PyFn(fd, self.fr, "<comprehension>")

    def p_ListComp(self, n, st):
        r = "$list"
        add_ = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=r, ctx=ast.Load()), attr="append", ctx=ast.Load()), args=[n.elt], keywords=[]))
        return self.callpy(self.comprehension(n, st, add_, r), [], {}, st)

    def p_GeneratorExp(self, n, st):
        if self.fr is self.gfr:
            raise Unsupported("generator at module level")
        first = self.ev(n.generators[0].iter, st)       # evaluated at once
        fn = self.comprehension(n, st, ast.Expr(value=ast.Yield(value=n.elt)), first=True)
        return self.mkgen(fn, {".0": first}, st)

    def collect(self, it, st):
        """list of what an iterable gives"""
        p = Ptr(self.alloc(st, vec_empty("d"), "heap"))

        def body(s, x):
            self.apply(Opaque("listmethod", (p, "append")), [x], {}, s)
            o = Outs()
            o.next.append(s)
            return o
        o = self.iterate(it, st, body)
        self.pend += o.thr
        m = self.join_next(o.next)
        if o.ret or o.brk:
            raise Unsupported("list of an iterable")
        st.become(m if m is not None else State(st.mem, st.pc + (FALSE,)))
        return p

    def p_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.getattr(o, n.attr, st)

    def getattr(self, o, a, st):
        if isinstance(o, CCls):
            if a in o.b.methods:
                return CMeth(o.b, a)
            raise Unsupported("attribute %s of a class" % a)
        if isinstance(o, PyCls):
            return self.clsattr(o.node, a, None)
        if isinstance(o, Dct):
            if a in ("get", "items", "keys", "values", "copy"):
                return Opaque("dictmethod", (o, a))
        if isinstance(o, Str) or isinstance(o, Opaque) and o.what == "str":
            return Opaque("strmethod", (o, a))
        if isinstance(o, Ptr):
            v = self.read(st, o.lv)
            if isinstance(v, Obj):
                if v.cls in self.pyclasses:
                    if a in v.f:
                        return v.f[a]
                    return self.clsattr(self.pyclasses[v.cls], a, o)
                b = self.cls_by_cpp(v.cls)
                if a in b.methods:
                    return CMeth(b, a, o)
                if a in b.props:
                    return self.ccall(b.props[a][0], o, [], st)
                if a in b.fields:
                    return self.mklist(self.read(st, o.lv.f(b.fields[a][0])), st)
                self.oblige("safety", "attribute %s exists" % a, st, FALSE)
                raise Unsupported("attribute %s of %s" % (a, v.cls))
            if isinstance(v, Vec):
                return Opaque("listmethod", (o, a))
        if isinstance(o, Opaque) and o.what == "module":
            return Opaque("module", o.data + "." + a)
        raise Unsupported("attribute %s of %r" % (a, o))

    def cls_by_cpp(self, cpp):
        for b in self.b.classes.values():
            if b.cpp == cpp:
                return b
        raise Unsupported("no binding of class " + cpp)

    def clsattr(self, node, a, bound):
        for m in node.body:
            if isinstance(m, ast.FunctionDef) and m.name == a:
                deco = [d.id for d in m.decorator_list if isinstance(d, ast.Name)]
                if len(deco) != len(m.decorator_list) or any(d not in ("staticmethod", "classmethod", "property") for d in deco):
                    raise Unsupported("decorator")
                if "property" in deco:
                    if bound is None:
                        raise Unsupported("property of a class")
                    return self.callpy(PyFn(m, self.gfr, node.name + "." + a, bound), [], {}, self._st)
                if "staticmethod" in deco:
                    bound = None
                elif "classmethod" in deco:
                    bound = PyCls(node.name, node)
                return PyFn(m, self.gfr, node.name + "." + a, bound)
            if isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a for t in m.targets):
                return self.ev(m.value, self.gst)
        raise Unsupported("attribute %s of class %s" % (a, node.name))

    def p_Subscript(self, n, st):
        o = self.ev(n.value, st)
        sl = n.slice.value if isinstance(n.slice, ast.Index) else n.slice
        if isinstance(sl, ast.Slice):
            raise Unsupported("slice")
        i = self.ev(sl, st)
        return self.item(o, i, st)

    def item(self, o, i, st):
        if isinstance(o, Alt):
            return self.branch(st, o.c, lambda s: self.item(o.a, i, s), lambda s: self.item(o.b, i, s))
        if isinstance(o, Dct):
            if not isinstance(i, Str) or i.text is None:
                raise Unsupported("dictionary subscript")
            if i.text not in o.d:
                self.oblige("safety", "key %s exists" % i.text, st, FALSE)
                raise Unsupported("missing key " + i.text)
            return o.d[i.text]
        if isinstance(o, tuple):
            k = is_num(i) if isinstance(i, T) else None
            if k is None or not -len(o) <= k < len(o):
                raise Unsupported("tuple subscript")
            return o[int(k)]
        if isinstance(o, Ptr):
            v = self.read(st, o.lv)
            if isinstance(v, Vec):
                if not (isinstance(i, T) and i.s == "I"):
                    raise Unsupported("list subscript")
                k = is_num(i)
                if k is not None and k < 0:
                    i = add(v.len, i)
                self.oblige("safety", "list subscript in range", st, and_(le(num(0), i), lt(i, v.len)))
                e = v.get(i)
                return Ptr(o.lv.i(i)) if isinstance(e, Vec) else e
        raise Unsupported("subscript of %r" % (o,))

    def p_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return not_(self.truth(self.ev(n.operand, st), st))
        v = self.number(self.ev(n.operand, st), st)
        if isinstance(n.op, ast.USub):
            return D(neg(v.v), v.bad) if isinstance(v, D) else neg(self.b2i(v))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def p_BinOp(self, n, st):
        return self.binop(n.op, self.ev(n.left, st), self.ev(n.right, st), st)

    def binop(self, op, a, b, st):
        if isinstance(a, Alt):
            return self.branch(st, a.c, lambda s: self.binop(op, a.a, b, s), lambda s: self.binop(op, a.b, b, s))
        if isinstance(b, Alt):
            return self.branch(st, b.c, lambda s: self.binop(op, a, b.a, s), lambda s: self.binop(op, a, b.b, s))
        if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, Str) or isinstance(b, Str):
            return Str()
        a, b = self.number(a, st), self.number(b, st)
        if isinstance(op, ast.Pow) and isinstance(b, T) and is_num(b) == 2:
            return self.arith("*", a, a, "d", st)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            return self.arith({ast.Add: "+", ast.Sub: "-", ast.Mult: "*"}[type(op)], a, b, "d" if isinstance(a, D) or isinstance(b, D) else "i", st)
        if isinstance(op, ast.Div):
            a, b = asD(a), asD(b)
            self.oblige("safety", "division by zero", st, or_(b.bad, ne(b.v, rnum(0))))
            return D(div(a.v, b.v), or_(a.bad, b.bad))
        if isinstance(op, ast.FloorDiv) and isinstance(a, T) and isinstance(b, T) and is_num(b) is not None and is_num(b) > 0:
            return idiv(a, b)
        if isinstance(op, ast.Mod) and isinstance(a, T) and isinstance(b, T) and is_num(b) is not None and is_num(b) > 0:
            return sub(a, mul(b, idiv(a, b)))
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(a, T) and isinstance(b, T) and a.s == "B" and b.s == "B":
            return and_(a, b) if isinstance(op, ast.BitAnd) else or_(a, b)
        raise Unsupported("operator " + type(op).__name__)

    def branch(self, st, c, fa, fb):
        """value of: fa if c else fb (each evaluated on its own path)"""
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        a = fa(s1) if not s1.dead() else None
        b = fb(s2) if not s2.dead() else None
        if s1.dead() and s2.dead():
            st.assume(FALSE)
            return a if a is not None else b
        if s1.dead():
            st.become(s2)
            return b
        if s2.dead():
            st.become(s1)
            return a
        for k in set(s1.mem) | set(s2.mem):      # objects made on one path only stay reachable
            if k[0] == "heap":
                s1.mem.setdefault(k, s2.mem.get(k))
                s2.mem.setdefault(k, s1.mem.get(k))
        m = merge([s1, s2])
        st.become(m)
        r = pvite(c, a, b)
        return Alt(c, a, b) if r is POISON else r

    def p_IfExp(self, n, st):
        c = self.truth(self.ev(n.test, st), st)
        return self.branch(st, c, lambda s: self.ev(n.body, s), lambda s: self.ev(n.orelse, s))

    def p_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(k, s):
            v = self.ev(n.values[k], s)
            if k == len(n.values) - 1:
                return v
            c = self.truth(v, s)
            short = v
            if isinstance(v, Opt) and not isand:
                short = v.v                      # a true value is not None
            if isand:
                return self.branch(s, c, lambda x: go(k + 1, x), lambda x: short if not (isinstance(v, T) and v.s == "B") else FALSE)
            return self.branch(s, c, lambda x: short if not (isinstance(v, T) and v.s == "B") else TRUE, lambda x: go(k + 1, x))
        return go(0, st)

    def p_Compare(self, n, st):
        l = self.ev(n.left, st)
        acc = []
        for op, r in zip(n.ops, n.comparators):
            rr = self.ev(r, st)
            acc.append(self.cmp(op, l, rr, st))
            l = rr
        return and_(*acc)

    def cmp(self, op, a, b, st):
        for x in (a, b):
            if isinstance(x, Alt):
                s1, s2 = st.copy(), st.copy()
                s1.assume(x.c)
                s2.assume(not_(x.c))
                go = lambda v, s: self.cmp(op, v if x is a else a, v if x is b else b, s)
                return go(x.b, st) if s1.dead() else go(x.a, st) if s2.dead() else ite(x.c, go(x.a, s1), go(x.b, s2))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (a is NONE or b is NONE):
            x = b if a is NONE else a
            r = TRUE if x is NONE else x.none if isinstance(x, Opt) else FALSE
            if isinstance(x, Alt):
                raise Unsupported("comparison with None")
            return r if isinstance(op, (ast.Is, ast.Eq)) else not_(r)
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, Str) and a.text is not None:
                if isinstance(b, Dct):
                    r = B(a.text in b.d)
                elif isinstance(b, tuple) and all(isinstance(x, Str) and x.text is not None for x in b):
                    r = B(a.text in [x.text for x in b])
                else:
                    raise Unsupported("membership")
                return r if isinstance(op, ast.In) else not_(r)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if isinstance(a, Str) and isinstance(b, Str):
                    if a.text is None or b.text is None:
                        raise Unsupported("comparison of unknown strings")
                    r = B(a.text == b.text)
                else:
                    r = FALSE
                return r if isinstance(op, ast.Eq) else not_(r)
            raise Unsupported("comparison of strings")
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, (ast.Eq, ast.NotEq)):
            r = and_(*[self.cmp(ast.Eq(), x, y, st) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
            return r if isinstance(op, ast.Eq) else not_(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, T) and isinstance(b, T) and a.s == "B" and b.s == "B":
                r = iff(a, b)
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                r = B(a.lv.same(b.lv))
            else:
                raise Unsupported("identity comparison")
            return r if isinstance(op, ast.Is) else not_(r)
        s = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}.get(type(op))
        if s is None:
            raise Unsupported("comparison " + type(op).__name__)
        return self.compare(s, self.number(a, st), self.number(b, st))

    # ------------------------------------------------------------------ calls
    def p_Call(self, n, st):
        f = self.ev(n.func, st)
        vals = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                x = self.ev(a.value, st)
                if not isinstance(x, tuple):
                    raise Unsupported("starred argument")
                vals += list(x)
            else:
                vals.append(self.ev(a, st))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                x = self.ev(k.value, st)
                if not isinstance(x, Dct):
                    raise Unsupported("double-starred argument")
                kw.update(x.d)
            else:
                kw[k.arg] = self.ev(k.value, st)
        return self.apply(f, vals, kw, st)

    def apply(self, f, vals, kw, st):
        if st.dead():
            return NONE
        if isinstance(f, PyFn):
            return self.callpy(f, vals, kw, st)
        if isinstance(f, CMeth):
            if kw:
                raise Unsupported("keyword argument of an extension method")
            this = f.this
            if this is None:
                if not vals:
                    raise Unsupported("unbound method")
                this, vals = vals[0], vals[1:]
            return self.overloads(f.cls.methods[f.name], this, vals, st, f.cls.cpp)
        if isinstance(f, CCls):
            if kw:
                raise Unsupported("keyword argument of an extension class")
            return self.cnew(f.b, vals, st)
        if isinstance(f, PyCls):
            raise Unsupported("construction of " + f.name)
        if isinstance(f, Builtin):
            return self.builtinfn(f.name, vals, kw, st)
        if isinstance(f, Opaque) and f.what == "dictmethod":
            d, a = f.data
            if a == "get" and isinstance(vals[0], Str) and vals[0].text is not None:
                return d.d.get(vals[0].text, vals[1] if len(vals) > 1 else NONE)
            if a in ("items", "keys", "values") and not vals:
                return tuple((Str(k), v) if a == "items" else Str(k) if a == "keys" else v for k, v in d.d.items())
            raise Unsupported("dictionary method " + a)
        if isinstance(f, Opaque) and f.what == "strmethod":
            if f.data[1] in ("format", "join", "strip", "lower", "upper"):
                s, a = f.data
                if a in ("strip", "lower", "upper") and isinstance(s, Str) and s.text is not None and not vals:
                    return Str(getattr(s.text, a)())
                return Str()
            raise Unsupported("string method")
        if isinstance(f, Opaque) and f.what == "listmethod":
            o, a = f.data
            v = self.read(st, o.lv)
            if a == "append" and v.et == "d" and isinstance(vals[0], (T, D)):
                self.write(st, o.lv, vec_push(v, asD(vals[0])))
                return NONE
            if a == "copy":
                return self.mklist(v, st)
            raise Unsupported("list method " + a)
        raise Unsupported("call of %r" % (f,))

    def builtinfn(self, name, vals, kw, st):
        if name == "len":
            v = self.deepval(vals[0], st)
            if isinstance(v, Vec):
                return v.len
            if isinstance(v, tuple):
                return num(len(v))
            raise Unsupported("len")
        if name == "float":
            return asD(self.number(vals[0], st))
        if name == "int":
            v = self.number(vals[0], st)
            if isinstance(v, T):
                return self.b2i(v)
            self.oblige("safety", "int() of a finite number", st, not_(v.bad))
            return self.trunc(v, st)
        if name == "bool":
            return self.truth(vals[0], st)
        if name == "abs":
            v = self.number(vals[0], st)
            if isinstance(v, D):
                return D(ite(le(rnum(0), v.v), v.v, neg(v.v)), v.bad)
            return ite(le(num(0), v), v, neg(v))
        if name in ("min", "max") and len(vals) == 2:
            a, b = self.number(vals[0], st), self.number(vals[1], st)
            c = self.compare("<" if name == "min" else ">", b, a)
            return vite(c, b, a)
        if name in ("list",) and len(vals) == 1:
            v = self.deepval(vals[0], st)
            if isinstance(v, Vec):
                return self.mklist(v, st)
            if isinstance(v, Gen) or isinstance(v, Opaque) and v.what == "range":
                return self.collect(v, st)
        if name == "print":
            return NONE
        if name in ("setattr", "getattr") and len(vals) == 2 + (name == "setattr") and isinstance(vals[1], Str) and vals[1].text is not None:
            if name == "getattr":
                return self.getattr(vals[0], vals[1].text, st)
            self.setattr(vals[0], vals[1].text, vals[2], st)
            return NONE
        if name in ("enumerate", "range", "zip"):
            return Opaque(name, (vals, kw))
        if name == "iter":
            return vals[0]
        if name == "isinstance":
            raise Unsupported("isinstance")
        if name.endswith("Error") or name == "Exception":
            return Opaque("pyexc", name)
        raise Unsupported("builtin " + name)

    def bind(self, fn, vals, kw, st):
        a = fn.node.args
        if a.vararg or a.kwarg:
            raise Unsupported("variable arguments")
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = list(vals)
        if fn.bound is not None:
            vals = [fn.bound] + vals
        if len(vals) > len(pos):
            self.oblige("safety", "number of arguments", st, FALSE)
            raise Unsupported("too many arguments")
        out = dict(zip(pos, vals))
        for k, v in kw.items():
            if k in out or k not in pos + [x.arg for x in a.kwonlyargs]:
                self.oblige("safety", "argument name " + k, st, FALSE)
                raise Unsupported("argument " + k)
            out[k] = v
        saved = self.fr
        self.fr = fn.frame
        try:
            for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if p not in out:
                    v = fn.defs[p] if fn.defs is not None else self.ev(d, self.gst if fn.frame is self.gfr else st)
                    if isinstance(v, Ptr) or isinstance(v, Dct):
                        raise Unsupported("mutable default argument")
                    out[p] = v
        finally:
            self.fr = saved
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in out:
                self.oblige("safety", "argument %s is given" % p, st, FALSE)
                raise Unsupported("missing argument " + p)
        return out

    def callpy(self, fn, vals, kw, st):
        args = self.bind(fn, vals, kw, st)
        if is_generator(fn.node):
            return self.mkgen(fn, args, st)
        c = self.pycontracts.get(fn.name)
        if c is not None and set(c.params) <= set(args) and all(c.defaulted(k, v) for k, v in args.items() if k not in c.params):
            self.called.add("contract:" + c.unit(args))
            return c.apply(self, st, args.get("self"), [args[p] for p in c.params])
        return self.inline(fn, args, st)

    def mkgen(self, fn, args, st):
        key = ("v", "gen", next(self.nfid))
        st.mem[key] = FALSE
        return Gen(fn, args, key)

    def frame_for(self, fn, args, st):
        fr = PyFrame(next(self.nfid), fn.node, fn.frame if fn.frame is not self.gfr else self.gfr, fn.name)
        for p, v in args.items():
            key = ("v", fr.fid, p)
            st.mem[key] = v
            fr.env[p] = LV(key)
        return fr

    def run_fn(self, fn, args, st):
        """outcomes of one function call: (returns [(state, value)], exceptions [(state, what)])"""
        self.depth += 1
        if self.depth > 12:
            self.depth -= 1
            raise Unsupported("recursion")
        saved, savedp = self.fr, self.pend
        self.pend = []
        fr = self.frame_for(fn, args, st)
        try:
            self.fr = fr
            outs = self.pyblock(fn.node.body, st)
        finally:
            self.fr = saved
            self.depth -= 1
            mine, self.pend = self.pend, savedp
        if outs.brk or outs.cont:
            raise Unsupported("break outside a loop")
        rets = [(s, NONE) for s in outs.next] + outs.ret
        return [(s, v) for s, v in rets if not s.dead()], outs.thr + mine, fr

    def inline(self, fn, args, st):
        rets, thr, fr = self.run_fn(fn, args, st)
        for s, w in thr:
            self.drop(s, fr.fid)
            self.pend.append((s, w))
        if not rets:
            st.become(State(st.mem, st.pc + (FALSE,)))
            return NONE
        if len(rets) == 1:
            s, v = rets[0]
            self.drop(s, fr.fid)
            st.become(s)
            return v
        acc_s, acc_v = rets[0]
        for s, v in rets[1:]:
            for k in set(acc_s.mem) | set(s.mem):
                if k[0] == "heap":
                    acc_s.mem.setdefault(k, s.mem.get(k))
                    s.mem.setdefault(k, acc_s.mem.get(k))
            k = 0
            while k < len(acc_s.pc) and k < len(s.pc) and acc_s.pc[k] is s.pc[k]:
                k += 1
            c = and_(*acc_s.pc[k:])
            r = pvite(c, acc_v, v)
            if r is POISON:
                r = Alt(c, acc_v, v)
            acc_s, acc_v = self.merge2(acc_s, s), r
        self.drop(acc_s, fr.fid)
        st.become(acc_s)
        return acc_v

    # --- extension modules
    def convert(self, v, q, st):
        """Python value to a C++ argument of type q; None when the conversion fails"""
        q = q.replace("const ", "").replace("&", "").strip()
        ty = ctype(q, self.prog)
        if isinstance(v, Opt):
            self.oblige("requires", "None is not passed to an extension function", st, not_(v.none))
            v = v.v
        if "basic_string" in q or q in ("std::string", "string"):
            if isinstance(v, Str) and v.term is None:
                v.term = var("str:" + v.text, "I") if v.text is not None else fresh("str", "I")
            return v.term if isinstance(v, Str) else None
        if ty == "d":
            return asD(v) if isinstance(v, (D, T)) else None
        if ty in ("i", "u"):
            return self.b2i(v) if isinstance(v, T) else None
        if ty == "b":
            return v if isinstance(v, T) and v.s == "B" else None
        if isinstance(ty, tuple) and ty[0] == "p":
            if isinstance(ty[1], tuple) and ty[1][0] == "v":
                x = self.convert_list(v, ty[1], st)
                return None if x is None else Ptr(self.alloc(st, x, "tmp"))
            if isinstance(ty[1], tuple) and ty[1][0] == "o":
                return v if isinstance(v, Ptr) and self.pyclass_of(v.lv, st) == ty[1][1] else None
        if isinstance(ty, tuple) and ty[0] == "v":
            return self.convert_list(v, ty, st)
        raise Unsupported("conversion to " + q)

    def convert_list(self, v, ty, st):
        x = self.deepval(v, st)
        if not isinstance(x, Vec):
            return None
        et = cexec.et_of(ty[1])
        if x.et == et:
            return x
        if is_num(x.len) == 0:
            return vec_empty(et)
        return None

    def overloads(self, targets, this, vals, st, cpp):
        if len(targets) != 1:
            raise Unsupported("overloaded binding")
        return self.ccall(targets[0], this, vals, st)

    def ccall(self, t, this, vals, st):
        """call a bound C++ function"""
        if t is None:
            raise Unsupported("read-only attribute")
        if t["kind"] == "lambda":
            return self.clambda(t["node"], this, vals, st)
        if t["kind"] != "member":
            raise Unsupported("binding of kind " + t["kind"])
        fn = None
        for x in self.prog.find(t["cls"], t["name"]):
            if x["type"]["qualType"] == t["type"] or len(self.prog.find(t["cls"], t["name"])) == 1:
                fn = x
        if fn is None:
            raise Unsupported("no definition of %s::%s" % (t["cls"], t["name"]))
        if not isinstance(this, Ptr) or self.pyclass_of(this.lv, st) != t["cls"]:
            self.oblige("safety", "%s is called on a %s" % (t["name"], t["cls"]), st, FALSE)
            raise Unsupported("receiver of " + t["name"])
        parms = [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        if len(parms) != len(vals):
            self.oblige("safety", "number of arguments of " + t["name"], st, FALSE)
            raise Unsupported("arguments of " + t["name"])
        cv = []
        for p, v in zip(parms, vals):
            x = self.convert(v, p["type"].get("desugaredQualType") or p["type"]["qualType"], st)
            if x is None:
                self.oblige("safety", "argument of %s has the right type" % t["name"], st, FALSE)
                raise Unsupported("argument of " + t["name"])
            cv.append(x)
        saved = self.fr
        try:
            r = self.cside(lambda: self.call(fn, this.lv, cv, st))
        finally:
            self.fr = saved
        return self.fromc(r, st)

    def cside(self, f):
        """run C++ code: the C++ meanings of ev/rv apply"""
        ex = self
        saved = (ex.__class__,)
        try:
            ex.__class__ = CSide
            return f()
        finally:
            ex.__class__ = saved[0]

    def clambda(self, node, this, vals, st):
        rec = node["inner"][0]
        op = [m for m in rec.get("inner", []) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"][0]
        parms = [c for c in op.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        body = [c for c in op.get("inner", []) if c.get("kind") == "CompoundStmt"][0]
        args = []
        for p, v in zip(parms, [this] + list(vals)):
            q = p["type"].get("desugaredQualType") or p["type"]["qualType"]
            ty = ctype(q, self.prog)
            if isinstance(ty, tuple) and ty[0] == "o":
                if not (isinstance(v, Ptr) and self.pyclass_of(v.lv, st) == ty[1]):
                    raise Unsupported("lambda argument")
                if not q.strip().endswith("&"):
                    raise Unsupported("lambda argument by value")
                args.append(Ref(v.lv))
            else:
                x = self.convert(v, q, st)
                if x is None:
                    raise Unsupported("lambda argument")
                args.append(x)
        saved = self.fr
        try:
            r = self.cside(lambda: self.run_body(body, parms, args, None, "bind", st, name="lambda"))
        finally:
            self.fr = saved
        return self.fromc(r, st)

    def fromc(self, r, st):
        if st.dead():
            return NONE
        if r is VOID:
            return NONE
        if isinstance(r, Ref):
            r = self.read(st, r.lv)
        if isinstance(r, Vec):
            return self.mklist(r, st)
        if isinstance(r, Ptr):
            v = self.read(st, r.lv)
            if isinstance(v, Vec):
                return self.mklist(v, st)
        return r

    def cnew(self, b, vals, st):
        """construct an extension object: the first signature whose conversions succeed"""
        for i in b.inits:
            if i["args"] is None:
                raise Unsupported("factory constructor")
            if len(i["args"]) != len(vals):
                continue
            cv = [self.convert(v, q, st) for v, q in zip(vals, i["args"])]
            if any(x is None for x in cv):
                continue
            fn = self.ctor(b.cpp, i["args"])
            if fn is None:
                raise Unsupported("constructor of " + b.cpp)
            s0 = st.copy()
            lv = self.alloc(st, self.default_of(("o", b.cpp)), "heap")
            saved = self.fr
            try:
                self.cside(lambda: self.call(fn, lv, cv, st))
            finally:
                self.fr = saved
            if i["keep"]:
                self.kept = getattr(self, "kept", []) + [(lv.key, k) for k in i["keep"]]
            return Ptr(lv)
        self.oblige("safety", "a constructor of %s accepts the arguments" % b.name, st, FALSE)
        raise Unsupported("no constructor of %s accepts the arguments" % b.name)

    def ctor(self, cpp, args):
        want = [ctype(q.replace("const ", "").replace("&", "").strip(), self.prog) for q in args]
        for d in self.prog.defs.values():
            if d["kind"] == "CXXConstructorDecl" and self.prog.cls_of(d) == cpp and not d.get("isImplicit"):
                ps = [c for c in d.get("inner", []) if c.get("kind") == "ParmVarDecl"]
                got = [ctype((p["type"].get("desugaredQualType") or p["type"]["qualType"]).replace("const ", "").replace("&", "").strip(), self.prog) for p in ps]
                if got == want:
                    return d
        return None

    # ------------------------------------------------------------------ statements
    def pyblock(self, body, st):
        outs = Outs()
        cur = st
        for n in body:
            if cur is None or cur.dead():
                break
            o = self.pystmt(n, cur)
            outs.join(o)
            cur = self.join_next(o.next)
        if cur is not None and not cur.dead():
            outs.next.append(cur)
        return outs

    def join_next(self, states):
        states = [s for s in states if not s.dead()]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        allk = {}
        for s in states:
            for k, v in s.mem.items():
                if k[0] == "heap":
                    allk.setdefault(k, v)
        for s in states:
            for k, v in allk.items():
                s.mem.setdefault(k, v)
        acc = states[0]
        for s in states[1:]:
            acc = self.merge2(acc, s)
        return acc

    def merge2(self, a, b):
        k = 0
        while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]:
            k += 1
        c = and_(*a.pc[k:])
        m = merge([a, b])
        for key, v in m.mem.items():
            if v is POISON and key in a.mem and key in b.mem:
                r = pvite(c, a.mem[key], b.mem[key])
                if r is POISON and POISON not in (a.mem[key], b.mem[key]) and key[0] == "v":
                    r = Alt(c, a.mem[key], b.mem[key])
                m.mem[key] = r
        return m

    def pystmt(self, n, st):
        self.where = "%s:%d" % (self.fr.name if self.fr else "", n.lineno)
        m = getattr(self, "q_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("Python statement " + type(n).__name__)
        return m(n, st)

    def simple(self, st):
        o = Outs()
        self.take_pend(o)
        if not st.dead():
            o.next.append(st)
        return o

    def q_Pass(self, n, st):
        return self.simple(st)

    q_Nonlocal = q_Global = q_Import = q_ImportFrom = q_Pass

    def q_Expr(self, n, st):
        if isinstance(n.value, ast.Yield):
            return self.do_yield(n.value, st)
        if isinstance(n.value, ast.YieldFrom):
            v = self.ev(n.value.value, st)
            return self.iterate(v, st, lambda s, x: self.yield_value(s, x))
        self.ev(n.value, st)
        return self.simple(st)

    def q_Assert(self, n, st):
        c = self.truth(self.ev(n.test, st), st)
        o = Outs()
        s = st.copy()
        s.assume(not_(c))
        if not s.dead():
            o.thr.append((s, "AssertionError"))
        st.assume(c)
        self.take_pend(o)
        if not st.dead():
            o.next.append(st)
        return o

    def q_FunctionDef(self, n, st):
        if n.decorator_list:
            raise Unsupported("decorator")
        self.setname(n.name, PyFn(n, self.fr, n.name, defs=self.defaults(n.args, st)), st)
        return self.simple(st)

    def defaults(self, a, st):
        """defaults are evaluated where the function is defined"""
        if self.fr is self.gfr:
            return None
        pos = [x.arg for x in a.posonlyargs + a.args]
        return {p: self.ev(d, st) for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]}

    def setname(self, nm, v, st):
        f = self.fr
        if nm not in f.locals and nm not in f.env:
            g = f.parent
            while g is not None and g is not self.gfr:
                if nm in g.env:
                    st.mem[g.env[nm].key] = v
                    return
                g = g.parent
            if f.parent is not None and nm in getattr(f, "nonlocals", ()):
                raise Unsupported("assignment to a global")
        key = ("v", f.fid, nm)
        f.env[nm] = LV(key)
        st.mem[key] = v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            sl = t.slice.value if isinstance(t.slice, ast.Index) else t.slice
            i = self.ev(sl, st)
            vec = self.deepval(o, st)
            if not isinstance(o, Ptr) or not isinstance(vec, Vec) or not isinstance(i, T) or vec.et != "d":
                raise Unsupported("assignment to a subscript")
            self.oblige("safety", "list subscript in range", st, and_(le(num(0), i), lt(i, vec.len)))
            self.write(st, o.lv.i(i), asD(self.number(v, st)))
        else:
            raise Unsupported("assignment target")

    def setattr(self, o, a, v, st):
        if not isinstance(o, Ptr):
            raise Unsupported("attribute assignment")
        x = self.read(st, o.lv)
        if not isinstance(x, Obj):
            raise Unsupported("attribute assignment")
        if x.cls in self.pyclasses:
            f = dict(x.f)
            f[a] = v
            st.mem[o.lv.key] = Obj(x.cls, f)
            return
        b = self.cls_by_cpp(x.cls)
        if a in b.props and b.props[a][1] is not None:
            self.ccall(b.props[a][1], o, [v], st)
            return
        if a in b.fields and b.fields[a][1]:
            cur = self.read(st, o.lv.f(b.fields[a][0]))
            self.write(st, o.lv.f(b.fields[a][0]), asD(self.number(v, st)) if isinstance(cur, D) else v)
            return
        self.oblige("safety", "attribute %s can be set" % a, st, FALSE)
        raise Unsupported("attribute " + a)

    def q_Assign(self, n, st):
        if isinstance(n.value, ast.Yield):
            raise Unsupported("value of a yield")
        v = self.ev(n.value, st)
        if not st.dead():
            for t in n.targets:
                self.assign(t, v, st)
        return self.simple(st)

    def q_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st)
        return self.simple(st)

    def q_AugAssign(self, n, st):
        import copy
        t = copy.copy(n.target)
        t.ctx = ast.Load()
        cur = self.ev(t, st)
        v = self.binop(n.op, cur, self.ev(n.value, st), st)
        self.assign(n.target, v, st)
        return self.simple(st)

    def q_Return(self, n, st):
        o = Outs()
        v = self.ev(n.value, st) if n.value is not None else NONE
        self.take_pend(o)
        if not st.dead():
            o.ret.append((st, v))
        return o

    def q_Break(self, n, st):
        o = Outs()
        o.brk.append(st)
        return o

    def q_Continue(self, n, st):
        o = Outs()
        o.cont.append(st)
        return o

    def q_Raise(self, n, st):
        o = Outs()
        what = "?"
        if n.exc is not None:
            v = self.ev(n.exc, st)
            if isinstance(v, Opaque) and v.what == "pyexc":
                what = v.data
            elif isinstance(v, Builtin):
                what = v.name
        what = {"ValueError": "std::invalid_argument"}.get(what, what)
        self.take_pend(o)
        o.thr.append((st, what))
        return o

    def q_If(self, n, st):
        o = Outs()
        c = self.truth(self.ev(n.test, st), st)
        self.take_pend(o)
        if st.dead():
            return o
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        nx = []
        for s, body in ((s1, n.body), (s2, n.orelse)):
            if s.dead():
                continue
            if body:
                r = self.pyblock(body, s)
                o.join(r)
                nx += r.next
            else:
                nx.append(s)
        m = self.join_next(nx)
        if m is not None:
            o.next.append(m)
        return o

    def q_Try(self, n, st):
        if n.finalbody:
            raise Unsupported("finally")
        o = self.pyblock(n.body, st)
        r = Outs()
        r.join(o, skip=("thr",))
        nx = list(o.next)
        if n.orelse:
            nx = []
            for s in o.next:
                q = self.pyblock(n.orelse, s)
                r.join(q)
                nx += q.next
        for s, w in o.thr:
            done = False
            for h in n.handlers:
                names = [x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(x, ast.Name)] if h.type is not None else ["Exception"]
                pw = {"std::invalid_argument": "ValueError"}.get(w, w)
                if "Exception" in names or pw in names:
                    q = self.pyblock(h.body, s)
                    r.join(q)
                    nx += q.next
                    done = True
                    break
            if not done:
                r.thr.append((s, w))
        m = self.join_next(nx)
        if m is not None:
            r.next.append(m)
        return r

    # ------------------------------------------------------------------ loops
    def pyloop(self, st, cond, body):
        saved = self.hint
        if self.hint is None and self.autohint is not None:
            self.hint = self.autohint(self, st)
            if self.hint is not None:
                self.deffacts += self.hint.lemmas
        try:
            return self.loop(st, cond, body)
        finally:
            self.hint = saved

    def q_While(self, n, st):
        def c(s, i):
            self._st = s
            return self.truth(self.ev(n.test, s), s)

        def b(s, i):
            o = self.pyblock(n.body, s)
            m = self.join_next(o.next + o.cont)
            r = Outs()
            r.join(o, skip=("cont",))
            if m is not None:
                r.next.append(m)
            return r
        o = self.pyloop(st, c, b)
        return self.orelse(n, o)

    def orelse(self, n, o):
        if n.orelse:
            raise Unsupported("else of a loop")
        m = self.join_next(o.next)
        o.next = [m] if m is not None else []
        return o

    def q_For(self, n, st):
        it = self.ev(n.iter, st)
        o = Outs()
        self.take_pend(o)
        if st.dead():
            return o

        def body(s, x):
            self.assign(n.target, x, s)
            return self.pyblock(n.body, s)
        r = self.iterate(it, st, body)
        o.join(r)
        o.next += r.next
        return self.orelse(n, o)

    def iterate(self, it, st, body):
        """run body(state, item) for every item; break leaves the loop"""
        if isinstance(it, Opaque) and it.what == "enumerate":
            vals, kw = it.data
            start = vals[1] if len(vals) > 1 else kw.get("start", num(0))
            key = ("v", "enum", next(self.nfid))
            st.mem[key] = start

            def step(s, x):
                i = s.mem[key]
                o = body(s, (i, x))
                m = self.join_next(o.next + o.cont)
                r = Outs()
                r.join(o, skip=("cont",))
                if m is not None:
                    m.mem[key] = add(m.mem[key], num(1))
                    r.next.append(m)
                return r
            o = self.iterate(vals[0], st, step)
            for s in o.next:
                s.mem.pop(key, None)
            return o
        if isinstance(it, Gen):
            return self.run_gen(it, st, body)
        if isinstance(it, Opaque) and it.what == "range":
            vals = [self.number(v, st) for v in it.data[0]]
            if any(isinstance(v, D) for v in vals) or len(vals) not in (1, 2):
                raise Unsupported("range")
            lo, hi = (num(0), vals[0]) if len(vals) == 1 else vals
            n = sub(hi, lo)
            return self.counted(st, n, lambda i: add(lo, i), body)
        if isinstance(it, Dct):
            it = tuple(Str(k) for k in it.d)
        if isinstance(it, Opaque) and it.what == "zip" and all(isinstance(x, tuple) for x in it.data[0]):
            it = tuple(zip(*it.data[0]))
        if isinstance(it, tuple):
            r, cur = Outs(), st
            for x in it:
                if cur is None or cur.dead():
                    break
                o = body(cur, x)
                r.join(o, skip=("cont",))
                cur = self.join_next(o.next + o.cont)
            m = self.join_next(([cur] if cur is not None and not cur.dead() else []) + r.brk)
            r.brk = []
            if m is not None:
                r.next.append(m)
            return r
        v = self.deepval(it, st)
        if isinstance(v, Vec):
            return self.counted(st, v.len, lambda i: Ptr(it.lv.i(i)) if isinstance(v.get(i), Vec) else v.get(i), body, it.lv)
        raise Unsupported("iteration over %r" % (it,))

    def counted(self, st, n, item, body, lv=None):
        def c(s, i):
            return lt(i, n)

        def b(s, i):
            o = body(s, item(i))
            m = self.join_next(o.next + o.cont)
            r = Outs()
            r.join(o, skip=("cont",))
            if m is not None:
                if lv is not None and self.read(m, lv).len is not n:
                    raise Unsupported("list changes during iteration")
                r.next.append(m)
            return r
        return self.pyloop(st, c, b)

    def run_gen(self, g, st, body):
        """execute a generator's body with the consumer in place of every yield"""
        if st.mem.get(g.key) is not FALSE:
            raise Unsupported("a generator that may have been used before")
        st.mem[g.key] = TRUE
        saved = self.fr
        fr = self.frame_for(g.fn, g.vals, st)
        consumer_fr = saved

        def consume(s, x):
            cur, self.fr = self.fr, consumer_fr
            try:
                o = body(s, x)
            finally:
                self.fr = cur
            r = Outs()
            m = self.join_next(o.next + o.cont)
            if m is not None:
                r.next.append(m)
            r.thr += o.thr
            r.ret += [(s2, ("generator closed by break", v)) for s2, v in [(b_, None) for b_ in o.brk]]
            r.ret += [(s2, ("consumer returns", v)) for s2, v in o.ret]
            return r
        self.yields.append(consume)
        try:
            self.fr = fr
            o = self.pyblock(g.fn.node.body, st)
        finally:
            self.fr = saved
            self.yields.pop()
        r = Outs()
        r.thr += o.thr
        for s, v in o.ret:
            if isinstance(v, tuple) and v and v[0] == "generator closed by break":
                self.drop(s, fr.fid)
                r.brk.append(s)
            elif isinstance(v, tuple) and v and v[0] == "consumer returns":
                self.drop(s, fr.fid)
                r.ret.append((s, v[1]))
            else:
                o.next.append(s)
        nx = []
        for s in o.next + r.brk:
            self.drop(s, fr.fid)
            nx.append(s)
        m = self.join_next(nx)
        r.brk = []
        if m is not None:
            r.next.append(m)
        return r

    def do_yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        o = Outs()
        self.take_pend(o)
        if st.dead():
            return o
        r = self.yield_value(st, v)
        o.join(r)
        o.next += r.next
        return o

    def yield_value(self, st, v):
        if not self.yields:
            raise Unsupported("yield outside a consumed generator")
        consume = self.yields.pop()
        try:
            return consume(st, v)
        finally:
            self.yields.append(consume)

    def block(self, n, st):
        return Ex.block(self, n, st)


class CSide(PyEx):
    """the same executor while it runs C++ code"""
    ev = Ex.ev
    rv = Ex.rv
    cond_value = Ex.cond_value
