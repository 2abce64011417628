"""Symbolic executor over the clang AST: turns the C++ of the repository into proof obligations.

Loops are summarised by closed forms that are themselves proved inductive (obligation kind 'loop'); calls are replaced by
contracts where one is given and inlined otherwise."""
import itertools
import re
import terms as t_
from terms import *
from values import *
from prover import QFact, prove
import streams


class State:
    __slots__ = ("mem", "pc")

    def __init__(self, mem=None, pc=()):
        self.mem, self.pc = mem if mem is not None else {}, tuple(pc)

    def copy(self):
        return State(dict(self.mem), self.pc)

    def become(self, o):
        self.mem, self.pc = o.mem, o.pc

    def assume(self, c):
        if c is not TRUE:
            self.pc = self.pc + (c,)

    def cond(self):
        return and_(*self.pc)

    def dead(self):
        return self.cond() is FALSE


class Ob:
    __slots__ = ("kind", "label", "pc", "goal", "facts", "qfacts", "where", "tags", "ok", "how", "time", "more")

    def __init__(self, kind, label, pc, goal, facts, qfacts, where, tags=()):
        self.kind, self.label, self.pc, self.goal, self.facts, self.qfacts, self.where, self.tags = kind, label, pc, goal, facts, qfacts, where, tuple(tags)
        self.ok = self.how = None
        self.time = 0.0
        self.more = []


def merge(states):
    """join states reached under mutually exclusive conditions"""
    states = [s for s in states if not s.dead()]
    if not states:
        return None
    acc = states[0]
    for s in states[1:]:
        k = 0
        while k < len(acc.pc) and k < len(s.pc) and acc.pc[k] is s.pc[k]:
            k += 1
        ra, rb = and_(*acc.pc[k:]), and_(*s.pc[k:])
        pc = acc.pc[:k]
        o = or_(ra, rb)
        if o is not TRUE:
            pc = pc + (o,)
        # a guard that is as short as possible
        g = ra
        if not_(rb) is ra or ra is TRUE:
            g = ra
        else:
            ca = [c for c in acc.pc[k:] if not_(c).id in {x.id for x in s.pc[k:]}]
            if ca:
                g = ca[0]
        mem = {}
        for key, v in acc.mem.items():
            if key in s.mem:
                mem[key] = vite(g, v, s.mem[key])
        acc = State(mem, pc)
    return acc


class Outs:
    """outcomes of a statement"""
    def __init__(self):
        self.next, self.brk, self.cont, self.ret, self.thr = [], [], [], [], []

    def join(self, o, skip=()):
        for k in ("brk", "cont", "ret", "thr"):
            if k not in skip:
                getattr(self, k).extend(getattr(o, k))


class Frame:
    def __init__(self, fid, this, tu, parent=None, name=""):
        self.fid, self.this, self.tu, self.parent, self.name = fid, this, tu, parent, name
        self.env = {}
        self.ref = False        # the function returns a reference

    def lookup(self, did):
        f = self
        while f is not None:
            if did in f.env:
                return f.env[did]
            f = f.parent
        return None


def strip_type(q):
    q = q.replace("const ", "").replace(" const", "").replace("class ", "").replace("struct ", "").strip()
    return q


INTS = {"int8_t", "int16_t", "int", "long", "short", "long long", "signed char", "char", "std::ptrdiff_t", "ptrdiff_t", "ssize_t", "difference_type", "int64_t", "int32_t", "std::int64_t", "std::int32_t"}
NARROW = {"signed char": 8, "char": 8, "short": 16, "unsigned char": -8, "unsigned short": -16, "int8_t": 8, "int16_t": 16, "uint8_t": -8, "uint16_t": -16}
UNS = {"unsigned char", "uint8_t", "uint16_t", "unsigned int", "unsigned long", "unsigned long long", "unsigned short", "size_t", "std::size_t", "size_type", "unsigned", "uint64_t", "uint32_t", "std::vector<double>::size_type"}


def ctype(q, prog=None):
    q = strip_type(q)
    while q.endswith("&"):
        q = q[:-1].strip()
    if q.endswith("*"):
        return ("p", ctype(q[:-1], prog))
    if q in ("double", "long double", "value_type"):
        return "d"
    if q == "float":
        return "f"
    if q == "bool":
        return "b"
    if q == "void":
        return "void"
    if q in INTS:
        return "i"
    if q in UNS:
        return "u"
    for pre in ("std::vector<", "vector<"):
        if q.startswith(pre) and q.endswith(">"):
            inner = q[len(pre):-1]
            d, cut = 0, len(inner)
            for i, ch in enumerate(inner):
                if ch == "<":
                    d += 1
                elif ch == ">":
                    d -= 1
                elif ch == "," and d == 0:
                    cut = i
                    break
            e = ctype(inner[:cut], prog)
            if e == "f" or strip_type(inner[:cut]) in NARROW:
                return ("x", q)     # elements would be rounded or cut when stored by an algorithm
            return ("v", e)
    if "__normal_iterator" in q or q.endswith("::iterator") or q.endswith("::const_iterator"):
        return "it"
    if prog is not None and q in prog.classes:
        return ("o", q)
    if q.startswith(("std::unique_ptr<", "unique_ptr<")) and q.endswith(">"):
        e = ctype(q[q.index("<") + 1:-1].split(",")[0], prog)
        if isinstance(e, tuple) and e[0] == "o":
            return ("p", e)
    return streams.kind(q) or ("x", q)


def et_of(ty):
    """element-type code used by Vec"""
    if ty in ("u", "i"):
        return "i"
    if ty in ("d", "f"):
        return "d"
    if ty == "b":
        return "b"
    if isinstance(ty, tuple) and ty[0] == "v":
        return ("v", et_of(ty[1]))
    raise Unsupported("vector of " + str(ty))


WRAP = 2 ** 64
U32 = {"unsigned int", "unsigned", "uint32_t", "std::uint32_t"}


def qname(n):
    t = n.get("type", {}) if "kind" in n else n
    return strip_type(t.get("desugaredQualType") or t.get("qualType") or "").rstrip("&").strip()


def modulus(n):
    return 2 ** 32 if qname(n) in U32 else WRAP


class Ex:
    def __init__(self, prog, contracts=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.facts, self.qfacts, self.obls = [], [], []
        self.more = []          # further known facts, used when a proof fails without them
        self.quiet = 0
        self.loop_idx = []
        self.fr = None
        self.nfid = itertools.count()
        self.noid = itertools.count()
        self.pend = []          # outcomes thrown by calls inside the current expression
        self.where = ""
        self.hint = None        # loop hints of the function being verified
        self.depth = 0
        self.called = set()
        self.cur_tags = ()
        self.deffacts = []      # definitional facts (valid everywhere)

    # ------------------------------------------------------------- bookkeeping
    def fact(self, st, f):
        f = imp(st.cond(), f) if st is not None else f
        if f is not TRUE:
            self.facts.append(f)

    def qfact(self, st, vars_, body):
        if st is not None:
            body = imp(st.cond(), body)
        if body is not TRUE:
            self.qfacts.append(QFact(vars_, body))

    def oblige(self, kind, label, st, goal, tags=()):
        if self.quiet:
            return
        pc = st.pc if st is not None else ()
        if imp(and_(*pc), goal) is TRUE:
            self.obls.append(Ob(kind, label, (), TRUE, [], [], self.where, tags or self.cur_tags))
            return
        self.obls.append(Ob(kind, label, pc, goal, list(self.facts), list(self.qfacts) + self.deffacts, self.where, tags or self.cur_tags))
        self.obls[-1].more = self.more

    def quick(self, st, goal, timeout=1.0):
        """cheap proof attempt used for simplification only"""
        if goal is TRUE:
            return True
        if goal is FALSE:
            return False
        if nonneg_goal(goal):
            return True
        ok, _ = prove(list(self.facts) + list(st.pc), [], goal, timeout=timeout, rounds=1, use_cvc5=False)
        return ok

    def sym(self, name, ty):
        """arbitrary value of a type, depending on the active loop indices"""
        deps = tuple(self.loop_idx)
        nm = fresh_name(name)
        if ty in ("d", "f"):
            return D(symterm(nm + ".v", deps, "R"), symterm(nm + ".nan", deps, "B"))
        if ty in ("i", "u"):
            return symterm(nm, deps, "I")
        if ty == "b":
            return symterm(nm, deps, "B")
        if ty == "str":
            return symterm(nm, deps, "I")
        if isinstance(ty, tuple) and ty[0] == "v":
            return vec_sym(name, et_of(ty[1]), deps)
        if isinstance(ty, tuple) and ty[0] == "o":
            return Obj(ty[1], {f["name"]: self.sym(name + "." + f["name"], self.tyq(f)) for f in self.prog.fields(ty[1])})
        return Opaque("unknown " + str(ty))

    def sym_like(self, name, v):
        deps = tuple(self.loop_idx)
        nm = fresh_name(name)
        return like(nm, v, deps)

    # ------------------------------------------------------------- memory
    def alloc(self, st, v, tag="g"):
        key = (tag, next(self.noid))
        st.mem[key] = v
        return LV(key)

    def read(self, st, lv):
        if lv.key not in st.mem:
            self.oblige("safety", "use of an object that does not exist any more", st, FALSE)
            raise Unsupported("dangling object")
        v = st.mem[lv.key]
        for a, b in lv.path:
            if v is POISON:
                raise Unsupported("value differs between paths")
            v = v.f[b] if a == "f" else v.get(b)
        return v

    def write(self, st, lv, val):
        if lv.key not in st.mem:
            raise Unsupported("dangling object")
        st.mem[lv.key] = self._upd(st.mem[lv.key], lv.path, val)

    def _upd(self, v, path, val):
        if not path:
            return val
        a, b = path[0]
        if a == "f":
            f = dict(v.f)
            f[b] = self._upd(v.f[b], path[1:], val)
            return Obj(v.cls, f)
        return vec_store(v, b, self._upd(v.get(b), path[1:], val))

    # ------------------------------------------------------------- types
    def tyq(self, n):
        t = n.get("type", {})
        return ctype(t.get("desugaredQualType") or t.get("qualType") or "", self.prog)

    def is_ref(self, n):
        q = n.get("type", {}).get("qualType", "")
        return q.strip().endswith("&")

    # ------------------------------------------------------------- expressions
    def ev(self, n, st):
        """value of an expression; Ref for lvalues"""
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        r = n.get("range", {}).get("begin", {})
        ln = r.get("line") or r.get("expansionLoc", {}).get("line")
        return m(n, st)

    def rv(self, n, st):
        v = self.ev(n, st)
        if isinstance(v, Ref):
            v = self.read(st, v.lv)
        if v is POISON:
            raise Unsupported("value differs between paths")
        return v

    def lv(self, n, st):
        v = self.ev(n, st)
        if isinstance(v, Ref):
            return v.lv
        self.temporary(n)
        return self.alloc(st, v, "tmp")

    def temporary(self, n):
        """only a value may be put into a temporary object"""
        if n.get("valueCategory") == "lvalue":
            raise Unsupported("an expression that names an object")

    def _inner(self, n, st):
        return self.ev(n["inner"][0], st)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_FullExpr = _inner

    def e_MaterializeTemporaryExpr(self, n, st):
        v = self.ev(n["inner"][0], st)
        if isinstance(v, Ref):
            return v
        return Ref(self.alloc(st, v, "tmp"))

    def e_IntegerLiteral(self, n, st):
        return num(int(n["value"]))

    def e_FloatingLiteral(self, n, st):
        v = n["value"]
        f = float(v)
        if f in (float("inf"), float("-inf")) or f != f:
            return D(rnum(0), TRUE)
        if self.tyq(n) == "f":
            return D(app("round32", (rnum(Fraction(f)),), "R"))
        return D(rnum(Fraction(f)))

    def e_CXXBoolLiteralExpr(self, n, st):
        return TRUE if n["value"] in (True, "true") else FALSE

    def e_CharacterLiteral(self, n, st):
        return num(int(n["value"]))

    def e_StringLiteral(self, n, st):
        return Opaque("string", n["value"])

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return Opaque("null")

    def e_CXXDefaultArgExpr(self, n, st):
        return Opaque("default")

    def e_ImplicitValueInitExpr(self, n, st):
        return self.default_of(self.tyq(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThisExpr(self, n, st):
        f = self.fr
        while f.this is None and f.parent is not None:
            f = f.parent
        return Ptr(f.this)

    def e_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        lv = self.fr.lookup(d["id"])
        if lv is not None:
            if lv.held:
                self.held(lv, st)
            return Ref(lv)
        name = d.get("name", "")
        if d["kind"] == "VarDecl":
            gkey = ("global", name)
            if name == "NAN":
                return D(rnum(0), TRUE)
            if name == "npos":
                return streams.NPOS
            if gkey not in st.mem:
                ty = self.tyq(d)
                if isinstance(ty, tuple) and ty[0] == "o":
                    st.mem[gkey] = Opaque("exc", ty[1])
                else:
                    q = d.get("type", {}).get("qualType", "")
                    g = self.prog.ids.get((self.fr.tu, d["id"]))
                    if g is not None and "const" in q and g.get("inner"):
                        st.mem[gkey] = self.rv(g["inner"][-1], st)
                    else:
                        raise Unsupported("global variable " + name)
            return Ref(LV(gkey))
        return Opaque("decl", d)

    def e_MemberExpr(self, n, st):
        base = n["inner"][0]
        if n.get("isArrow"):
            p = self.rv(base, st)
            if not isinstance(p, Ptr):
                raise Unsupported("member through %r" % (p,))
            self.held(p.lv, st)
            return Ref(p.lv.f(n["name"]))
        b = self.ev(base, st)
        if isinstance(b, Ref):
            return Ref(b.lv.f(n["name"]))
        if isinstance(b, Obj):
            return b.f[n["name"]]
        raise Unsupported("member of %r" % (b,))

    # casts
    def cast(self, n, st):
        ck = n.get("castKind")
        sub = n["inner"][0]
        if ck == "LValueToRValue":
            v = self.ev(sub, st)
            v = self.read(st, v.lv) if isinstance(v, Ref) else v
            if v is POISON:
                raise Unsupported("value differs between paths")
            return v
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay", "ArrayToPointerDecay", "DerivedToBase", "UncheckedDerivedToBase", "BuiltinFnToFnPtr"):
            return self.ev(sub, st)
        if ck == "ToVoid":
            self.ev(sub, st)
            return VOID
        ty = self.tyq(n)
        if ck == "IntegralCast":
            v = self.rv(sub, st)
            return self.narrow(self.to_int(v, self.tyq(sub), ty, st, modulus(n), modulus(sub), qname(n)), n, st)
        if ck == "IntegralToFloating":
            v = self.rv(sub, st)
            v = self.b2i(v)
            return self.rnd(D(toR(v)), ty)
        if ck == "FloatingCast":
            return self.rnd(asD(self.rv(sub, st)), ty)
        if ck == "FloatingToIntegral":
            return self.fti(asD(self.rv(sub, st)), n, st)
        if ck == "IntegralToBoolean":
            v = self.rv(sub, st)
            return v if v.s == "B" else ne(v, num(0))
        if ck == "FloatingToBoolean":
            v = asD(self.rv(sub, st))
            return or_(v.bad, ne(v.v, rnum(0)))
        if ck in ("PointerToBoolean",):
            self.ev(sub, st)
            return TRUE
        if ck in ("NullToPointer",):
            return Opaque("null")
        raise Unsupported("cast " + str(ck))

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = cast

    def b2i(self, v):
        if isinstance(v, T) and v.s == "B":
            return ite(v, num(1), num(0))
        return v

    def rnd(self, d, ty):
        if ty == "f":
            if is_num(d.v) is not None and float(is_num(d.v)).hex() and abs(is_num(d.v)) < 2 ** 24 and is_num(d.v).denominator == 1:
                return d
            return D(app("round32", (d.v,), "R"), d.bad)
        return d

    def wrapped(self, v, st, mod):
        if nonneg(v) or self.quick(st, le(num(0), v), 0.5):
            return v
        return ite(le(num(0), v), v, add(v, num(mod)))

    def to_int(self, v, src, dst, st, mod=WRAP, smod=WRAP, q=""):
        v = self.b2i(v)
        if dst == "b":
            return ne(v, num(0))
        if dst == "u" and src != "u":
            return self.wrapped(v, st, mod)
        if dst == "u" and mod < smod:
            return self.wrapped(self.unwrap(v, smod), st, mod)
        if dst == "i" and src == "u" and not (smod < WRAP and q != "int" and q not in NARROW):
            return self.unwrap(v, smod)
        return v

    def fti(self, d, n, st):
        """floating point to integer: undefined when the value does not fit; only signs and the short types are watched"""
        v = self.trunc(d, st)
        q = qname(n)
        w = NARROW.get(q)
        if self.tyq(n) == "u" or w is not None:
            if w is None:
                w = -64
            lo = 0 if w < 0 else -2 ** (w - 1)
            self.oblige("safety", "conversion to %s in range" % q, st, le(num(lo), v) if abs(w) == 64 else and_(le(num(lo), v), le(v, num(2 ** abs(w) - 1 if w < 0 else 2 ** (w - 1) - 1))))
        return v

    def store_conv(self, v, src, n, st):
        """value v of type code src as it is stored by a compound assignment into expression n"""
        dst = self.tyq(n)
        if dst == "b":
            return or_(v.bad, ne(v.v, rnum(0))) if isinstance(v, D) else v if v.s == "B" else ne(v, num(0))
        if dst in ("d", "f"):
            return self.rnd(asD(self.b2i(v) if isinstance(v, T) else v), dst)
        if dst in ("i", "u"):
            if isinstance(v, D):
                return self.fti(v, n, st)
            return self.narrow(self.to_int(v, src, dst, st, modulus(n), modulus(n), qname(n)), n, st)
        return v

    def narrow(self, v, n, st):
        """conversion to an integer type of fewer than 32 bits (wider ones are taken as mathematical integers)"""
        t = n.get("type", {})
        w = NARROW.get(strip_type(t.get("desugaredQualType") or t.get("qualType") or ""))
        if w is None or not (isinstance(v, T) and v.s == "I"):
            return v
        lo = 0 if w < 0 else -2 ** (w - 1)
        hi = 2 ** abs(w) - 1 if w < 0 else 2 ** (w - 1) - 1
        if self.quick(st, and_(le(num(lo), v), le(v, num(hi))), 0.5):
            return v
        m = num(2 ** abs(w))
        return sub(v, mul(m, idiv(sub(v, num(lo)), m)))

    def unwrap(self, v, mod=WRAP):
        """ite(x >= 0, x, x + 2^64) as a signed number is x"""
        k = is_num(v)
        if k is not None:
            return num(k - mod) if k >= mod // 2 else v
        if v.op == "ite" and is_num(sub(v.a[2], v.a[1])) in (WRAP, 2 ** 32):
            return v.a[1]
        if v.op == "ite" and is_num(sub(v.a[1], v.a[2])) in (WRAP, 2 ** 32):
            return v.a[2]
        return v

    def trunc(self, d, st):
        if t_.is_intval(d.v):
            return toI(d.v)
        f = floor(d.v)
        if self.quick(st, le(rnum(0), d.v), 0.3):
            return f
        return ite(le(rnum(0), d.v), f, neg(floor(neg(d.v))))

    # operators
    def arith(self, op, a, b, ty, st, mod=WRAP):
        if isinstance(a, D) or isinstance(b, D):
            a, b = asD(a), asD(b)
            bad = or_(a.bad, b.bad)
            if op == "+":
                r = D(add(a.v, b.v), bad)
            elif op == "-":
                r = D(sub(a.v, b.v), bad)
            elif op == "*":
                r = D(mul(a.v, b.v), bad)
            elif op == "/":
                r = D(div(a.v, b.v), or_(bad, eq(b.v, rnum(0))))
            else:
                raise Unsupported("operator %s on doubles" % op)
            return self.rnd(r, ty)
        if op in ("&", "|") and isinstance(a, T) and isinstance(b, T) and a.s == "B" and b.s == "B":
            return and_(a, b) if op == "&" else or_(a, b)
        a, b = self.b2i(a), self.b2i(b)
        if op in ("&", "|", "^"):
            c = [x.a[0] if x.op == "ite" and x.a[1] is num(1) and x.a[2] is num(0) else {0: FALSE, 1: TRUE}.get(is_num(x)) for x in (a, b)]
            if None not in c:
                return ite({"&": and_, "|": or_, "^": lambda p, q: not_(iff(p, q))}[op](*c), num(1), num(0))
        if op == "&" and is_num(a) is not None:
            a, b = b, a
        if op in ("+", "-", "*") and ty == "u":
            a, b = self.unwrap(a, mod), self.unwrap(b, mod)       # modulo 2^32 or 2^64
            r = self.wrapped({"+": add, "-": sub, "*": mul}[op](a, b), st, mod)
        elif op == "+":
            r = add(a, b)
        elif op == "-":
            r = sub(a, b)
        elif op == "*":
            r = mul(a, b)
        elif op in ("/", "%"):
            self.oblige("safety", "division by zero", st, ne(b, num(0)))
            if nonneg(a) and nonneg(b) or (self.quick(st, le(num(0), a), 0.5) and self.quick(st, le(num(0), b), 0.5)):
                q = idiv(a, b)
            else:
                q = ite(le(num(0), a), ite(le(num(0), b), idiv(a, b), neg(idiv(a, neg(b)))), ite(le(num(0), b), neg(idiv(neg(a), b)), idiv(neg(a), neg(b))))
            r = q if op == "/" else sub(a, mul(b, q))
        elif op == "&" and is_num(b) is not None and is_num(b) >= 0 and (int(is_num(b)) & (int(is_num(b)) + 1)) == 0:
            r = sub(a, mul(num(is_num(b) + 1), idiv(a, num(is_num(b) + 1))))
        elif op == "<<" and is_num(b) is not None:
            r = mul(a, num(2 ** int(is_num(b))))
        elif op == ">>" and is_num(b) is not None:
            r = idiv(a, num(2 ** int(is_num(b))))
        else:
            raise Unsupported("operator " + op)
        return r

    def compare(self, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if not a.lv.same(b.lv):
                raise Unsupported("iterators of different containers")
            a, b = a.idx, b.idx
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            r = B(a.lv.same(b.lv))
            return r if op == "==" else not_(r)
        f = {"<": lt, "<=": le, ">": gt, ">=": ge, "==": eq, "!=": ne}[op]
        if isinstance(a, D) or isinstance(b, D):
            a, b = asD(a), asD(b)
            r = f(a.v, b.v)
            bad = or_(a.bad, b.bad)
            return or_(bad, r) if op == "!=" else and_(not_(bad), r)
        if isinstance(a, T) and isinstance(b, T):
            if a.s == "B" and b.s == "B" and op in ("==", "!="):
                r = iff(a, b)
                return r if op == "==" else not_(r)
            return f(self.b2i(a), self.b2i(b))
        raise Unsupported("comparison of %s" % type(a).__name__)

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        l, r = n["inner"]
        if op in ("&&", "||"):
            a = self.cond_value(self.rv(l, st))
            s2 = st.copy()
            s2.assume(a if op == "&&" else not_(a))
            s1 = st.copy()
            s1.assume(not_(a) if op == "&&" else a)
            streams.refine(s2, a if op == "&&" else not_(a))
            streams.refine(s1, not_(a) if op == "&&" else a)
            if s2.dead():
                return a
            b = self.cond_value(self.rv(r, s2))
            if any(s2.mem.get(k) is not v for k, v in st.mem.items()):
                m = merge([s1, s2])
                st.become(m)
            return and_(a, b) if op == "&&" else or_(a, b)
        if op == ",":
            self.ev(l, st)
            return self.ev(r, st)
        if op == "=":
            v = self.rv(r, st)
            lv = self.lv(l, st)
            self.write(st, lv, v)
            return Ref(lv)
        a = self.rv(l, st)
        b = self.rv(r, st)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque) and x.what == "find":
                if op in ("==", "!=") and y is streams.NPOS:
                    return streams.comma(x.data) if op == "!=" else not_(streams.comma(x.data))
                raise Unsupported("position in a string")
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(op, a, b)
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.iter_arith(op, a, b, st)
        return self.arith(op, a, b, self.tyq(n), st, modulus(n))

    def cond_value(self, v):
        if isinstance(v, T) and v.s == "B":
            return v
        if isinstance(v, T):
            return ne(v, num(0))
        raise Unsupported("condition %r" % (v,))

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        b = self.rv(r, st)
        lv = self.lv(l, st)
        a = self.read(st, lv)
        if a is POISON:
            raise Unsupported("value differs between paths")
        if isinstance(a, Iter):
            v = self.iter_arith(op, a, b, st)
        else:
            lt_ = n.get("computeLHSType", {})
            cty = ctype(lt_.get("desugaredQualType") or lt_.get("qualType") or "", self.prog)
            dst = self.tyq(l)
            if op in ("|", "&", "^"):
                if not (a.s == "B" or dst == "b"):
                    raise Unsupported("bit operator")
                a, b = self.cond_value(a), self.cond_value(b)
                v = or_(a, b) if op == "|" else and_(a, b) if op == "&" else not_(iff(a, b))
            else:
                if cty in ("d", "f"):
                    a = asD(self.b2i(a))
                elif cty == "u":
                    a = self.to_int(a, dst, "u", st, modulus(lt_))
                v = self.store_conv(self.arith(op, a, b, cty, st, modulus(lt_)), cty, l, st)
        self.write(st, lv, v)
        return Ref(lv)

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        x = n["inner"][0]
        if op in ("++", "--"):
            lv = self.lv(x, st)
            a = self.read(st, lv)
            if isinstance(a, Iter):
                v = Iter(a.lv, add(a.idx, num(1 if op == "++" else -1)), a.n)
            elif isinstance(a, D):
                v = self.rnd(D(add(a.v, rnum(1 if op == "++" else -1)), a.bad), self.tyq(x))
            elif a.s == "B":
                v = TRUE
            else:
                v = self.narrow(self.arith("+" if op == "++" else "-", a, num(1), self.tyq(x), st, modulus(x)), x, st)
            self.write(st, lv, v)
            return a if n.get("isPostfix") else Ref(lv)
        if op == "*":
            p = self.rv(x, st)
            return self.deref(p, st)
        if op == "&":
            v = self.ev(x, st)
            if isinstance(v, Ref):
                return Ptr(self.hold(v.lv, st))
            raise Unsupported("address of a value")
        v = self.rv(x, st)
        if op == "!":
            return not_(self.cond_value(v))
        if op == "-":
            if isinstance(v, D):
                return D(neg(v.v), v.bad)
            return self.arith("-", num(0), v, self.tyq(n), st, modulus(n))
        if op == "+":
            return v
        raise Unsupported("operator " + op)

    def deref(self, p, st):
        if isinstance(p, Iter):
            v = self.read(st, p.lv)
            self.valid(p, v, st)
            self.bounds(st, p.idx, v.len, "iterator dereference")
            return Ref(p.lv.i(p.idx))
        if isinstance(p, Ptr):
            self.held(p.lv, st)
            return Ref(p.lv)
        raise Unsupported("dereference of %r" % (p,))

    def valid(self, it, v, st):
        """the container has not grown (or been replaced) since the iterator was made"""
        if it.n is not None and it.n is not v.len:
            self.oblige("valid", "the iterator is still valid", st, le(v.len, it.n))

    def stale(self, lv, st):
        """the elements of this container may have moved: iterators made before must not be used any more"""
        n = len(lv.path)
        for k, x in list(st.mem.items()):
            if isinstance(x, Iter) and x.n is not None and x.lv.key == lv.key and LV(lv.key, x.lv.path[:n]).same(lv):
                st.mem[k] = Iter(x.lv, x.idx, num(-1))
            elif isinstance(x, Ptr) and x.lv.held:
                st.mem[k] = type(x)(self.moved(x.lv, lv))
        f = self.fr
        while f is not None:
            for k, x in f.env.items():
                if x.held:
                    f.env[k] = self.moved(x, lv)
            f = f.parent

    def moved(self, x, lv):
        if not any(c.same(lv) for c, _ in x.held):
            return x
        return LV(x.key, x.path, tuple((c, num(-1) if c.same(lv) else n) for c, n in x.held))

    def hold(self, lv, st):
        """location for a reference or pointer that outlives the expression"""
        if not any(a == "i" for a, _ in lv.path):
            return lv
        out = []
        for k, (a, _) in enumerate(lv.path):
            if a == "i":
                c = LV(lv.key, lv.path[:k])
                v = self.read(st, c)
                if isinstance(v, Vec):
                    out.append((c, v.len))
        return LV(lv.key, lv.path, tuple(out))

    def held(self, lv, st):
        for c, n in lv.held:
            v = self.read(st, c)
            if isinstance(v, Vec) and v.len is not n:
                self.oblige("valid", "the reference to an element is still valid", st, le(v.len, n))

    def bounds(self, st, i, ln, what):
        g = and_(le(num(0), i), lt(i, ln))
        if g is not TRUE:
            self.oblige("safety", what + " in range", st, g)

    def iter_arith(self, op, a, b, st):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if op == "-" and a.lv.same(b.lv):
                return sub(a.idx, b.idx)
            raise Unsupported("iterator operator " + op)
        if isinstance(b, Iter):
            a, b = b, a
        i = add(a.idx, b) if op == "+" else sub(a.idx, b)
        v = self.read(st, a.lv)
        self.oblige("safety", "iterator stays within its container", st, and_(le(num(0), i), le(i, v.len)))
        return Iter(a.lv, i, a.n)

    def e_ConditionalOperator(self, n, st):
        c = self.cond_value(self.rv(n["inner"][0], st))
        get = self.ev if n.get("valueCategory") == "lvalue" else self.rv
        if c is TRUE:
            return get(n["inner"][1], st)
        if c is FALSE:
            return get(n["inner"][2], st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        a = self.rv(n["inner"][1], s1)
        b = self.rv(n["inner"][2], s2)
        if any(s1.mem.get(k) is not v for k, v in st.mem.items()) or any(s2.mem.get(k) is not v for k, v in st.mem.items()):
            m = merge([s1, s2])
            st.become(m)
        v = vite(c, a, b)
        if v is POISON:
            raise Unsupported("value differs between paths")
        return v

    def e_CXXThrowExpr(self, n, st):
        what = "?"
        if n.get("inner"):
            x = self.rv(n["inner"][0], st)
            if isinstance(x, Opaque) and x.what == "exc":
                what = x.data
        s = st.copy()
        self.pend.append((s, what))
        st.assume(FALSE)
        return VOID

    # object creation
    def default_of(self, ty):
        if isinstance(ty, tuple) and ty[0] == "o":
            return Obj(ty[1], {f["name"]: self.field_default(f) for f in self.prog.fields(ty[1])})
        if isinstance(ty, tuple) and ty[0] == "v":
            return vec_empty(et_of(ty[1]))
        if ty in ("d", "f"):
            return D(rnum(0))
        if ty in ("i", "u"):
            return num(0)
        if ty == "b":
            return FALSE
        raise Unsupported("default of " + str(ty))

    def field_default(self, f):
        ty = self.tyq(f)
        if isinstance(ty, tuple) and ty[0] in ("o", "v"):
            return self.default_of(ty)
        if isinstance(ty, tuple) and ty[0] == "p":
            return Opaque("null")
        return self.sym("uninit." + f["name"], ty)

    def field_init(self, cls, name):
        for f in self.prog.fields(cls):
            if f["name"] == name:
                init = [c for c in f.get("inner", []) if c.get("kind", "").endswith("Expr") or c.get("kind", "").endswith("Literal") or c.get("kind") in ("UnaryOperator", "BinaryOperator")]
                if len(init) == 1:
                    return init[0]
        raise Unsupported("initialiser of field " + name)

    def e_CXXNewExpr(self, n, st):
        for c in n.get("inner", []):
            if c["kind"] in ("CXXConstructExpr",):
                v = self.ev(c, st)
                v = self.read(st, v.lv) if isinstance(v, Ref) else v
                return Ptr(self.alloc(st, v, "heap"))
        raise Unsupported("new")

    def e_CXXDeleteExpr(self, n, st):
        p = self.rv(n["inner"][0], st)
        if not isinstance(p, Ptr) or p.lv.path:
            raise Unsupported("delete")
        if p.lv.key not in st.mem or p.lv.key[0] != "heap":
            self.oblige("safety", "delete of an object that is not owned", st, FALSE)
        st.mem.pop(p.lv.key, None)
        return VOID

    def e_CXXTemporaryObjectExpr(self, n, st):
        return self.e_CXXConstructExpr(n, st)

    def e_CXXConstructExpr(self, n, st):
        ty = self.tyq(n)
        args = [a for a in n.get("inner", []) if a["kind"] != "CXXDefaultArgExpr"]
        if ty == "it":
            return self.rv(args[0], st)
        if isinstance(ty, tuple) and ty[0] == "p" and len(args) == 1:
            v = self.ev(args[0], st)
            if isinstance(v, Ptr) and not isinstance(v, Ref):
                return v
            if isinstance(v, Ref) and args[0]["kind"] == "MaterializeTemporaryExpr":
                return self.read(st, v.lv)
            raise Unsupported("moving a unique_ptr")
        if ty in ("str", "ifs", "ss"):
            return streams.construct(self, ty, args, st)
        if isinstance(ty, tuple) and ty[0] == "v":
            return self.make_vec(ty, args, st)
        if isinstance(ty, tuple) and ty[0] == "o":
            if len(args) == 1 and self.tyq(args[0]) == ty:
                return self.rv(args[0], st)
            return self.construct(ty[1], n, args, st)
        if isinstance(ty, tuple) and ty[0] == "x":
            q = ty[1]
            if len(args) == 1 and (q.startswith("(lambda") or "binder" in q or "std::" in q or "function" in q) and (q.startswith("(lambda") or not any(x in q for x in ("exception", "argument", "error"))):
                v = self.rv(args[0], st)
                return v
            for e in ("invalid_argument", "out_of_range", "runtime_error", "logic_error", "domain_error", "length_error"):
                if q.endswith(e):
                    return Opaque("exc", "std::" + e)
            if q.startswith(("std::minus<", "std::plus<", "std::multiplies<", "std::divides<")) and q[q.index("<") + 1:-1].strip() not in ("double", "void", ""):
                raise Unsupported("functor " + q)     # its arguments would be converted
            if q.startswith("std::minus"):
                return Func(lambda a, b: self.arith("-", a, b, "d", st))
            if q.startswith("std::plus"):
                return Func(lambda a, b: self.arith("+", a, b, "d", st))
            if q.startswith("std::multiplies"):
                return Func(lambda a, b: self.arith("*", a, b, "d", st))
            if q.startswith("std::divides"):
                return Func(lambda a, b: self.arith("/", a, b, "d", st))
        raise Unsupported("construction of %s" % (ty,))

    def e_InitListExpr(self, n, st):
        ty = self.tyq(n)
        if isinstance(ty, tuple) and ty[0] == "v" or ty in ("i", "d", "u", "b"):
            args = n.get("inner", [])
            if ty in ("i", "d", "u", "b"):
                return self.rv(args[0], st) if args else self.default_of(ty)
        raise Unsupported("initialiser list")

    def make_vec(self, ty, args, st):
        et = et_of(ty[1])
        if not args:
            return vec_empty(et)
        a0 = self.ev(args[0], st)
        if isinstance(a0, Ref):
            src = self.read(st, a0.lv)
        else:
            src = a0
        if isinstance(src, Vec) and len(args) == 1:
            return src
        if isinstance(src, Iter):
            e = self.rv(args[1], st)
            return self.range_copy(src, e, st, et)
        if isinstance(src, T) and src.s == "I":
            if len(args) > 1:
                fill = self.rv(args[1], st)
            else:
                fill = default(et)
            self.oblige("safety", "vector size is not negative", st, le(num(0), self.unwrap(src)))
            if et == "d":
                fill = asD(fill)
            return vec_fill(src, fill, et)
        raise Unsupported("vector construction")

    def range_copy(self, b, e, st, et):
        if not (isinstance(e, Iter) and b.lv.same(e.lv)):
            raise Unsupported("range of two containers")
        v = self.read(st, b.lv)
        self.range_ok(b, e, v, st)
        n = sub(e.idx, b.idx)
        return vec_fn(n, lambda k: v.get(add(b.idx, k)), et)

    def range_ok(self, b, e, v, st):
        self.valid(b, v, st)
        if e.n is not b.n:
            self.valid(e, v, st)
        self.oblige("safety", "iterator range lies within its container", st, and_(le(num(0), b.idx), le(b.idx, e.idx), le(e.idx, v.len)))

    def construct(self, cls, n, args, st):
        """run the constructor of a repository class (or its contract)"""
        ctor = self.find_ctor(cls, n, args)
        if ctor is None:
            if not args:
                return self.default_of(("o", cls))
            if cls.endswith("Exception"):
                return Opaque("exc", cls)
            raise Unsupported("constructor of " + cls)
        vals = self.args(ctor, args, st)
        lv = self.alloc(st, self.default_of(("o", cls)), "tmp")
        self.call(ctor, lv, vals, st)
        if st.dead():
            return Opaque("dead")
        return st.mem.pop(lv.key)

    def make_unique(self, n, args, st):
        ty = self.tyq(n)
        if not (isinstance(ty, tuple) and ty[0] == "p" and isinstance(ty[1], tuple) and ty[1][0] == "o"):
            raise Unsupported("make_unique of %s" % (ty,))
        cls = ty[1][1]
        ctors = [d for d in self.prog.defs.values() if d["kind"] == "CXXConstructorDecl" and self.prog.cls_of(d) == cls and not d.get("isImplicit") and nparams(d) == len(args)]
        if len(ctors) != 1:
            raise Unsupported("make_unique of " + cls)
        vals = self.args(ctors[0], args, st)
        parms = [c for c in ctors[0].get("inner", []) if c.get("kind") == "ParmVarDecl"]
        for i, p in enumerate(parms):
            want, got = self.tyq(p), self.tyq(args[i])
            if want != got:
                if want == "d" and got in ("i", "u"):
                    vals[i] = asD(vals[i])
                else:
                    raise Unsupported("argument conversion in make_unique")
        lv = LV(self.alloc(st, self.default_of(ty[1]), "heap").key)
        self.call(ctors[0], lv, vals, st)
        return Ptr(lv) if not st.dead() else Opaque("dead")

    def find_ctor(self, cls, n, args):
        q = n.get("ctorType", {}).get("qualType")
        for m, d in self.prog.defs.items():
            if d["kind"] == "CXXConstructorDecl" and self.prog.cls_of(d) == cls and not d.get("isImplicit"):
                if q and d["type"]["qualType"].replace(" ", "") == q.replace(" ", ""):
                    return d
        return None

    def e_LambdaExpr(self, n, st):
        rec = n["inner"][0]
        op = [m for m in rec.get("inner", []) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"]
        if not op:
            raise Unsupported("generic lambda")
        op = op[0]
        body = [c for c in n["inner"] if c and c.get("kind") == "CompoundStmt"][-1]
        parms = [c for c in op.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        opbody = [c for c in op.get("inner", []) if c.get("kind") == "CompoundStmt"]
        if opbody:
            body = opbody[0]
        frame = self.fr
        fields = [c for c in rec.get("inner", []) if c.get("kind") == "FieldDecl"]
        held = []
        if not all(c["type"]["qualType"].rstrip().endswith("&") for c in fields):
            # a variable captured by copy: the body reads the original, which must not have changed by the time of a call
            inits = [c for c in n["inner"][1:] if c and c.get("kind") != "CompoundStmt"]
            if len(inits) != len(fields):
                raise Unsupported("captures of a lambda")
            for c, x in zip(fields, inits):
                while x.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "ParenExpr", "ExprWithCleanups") and x.get("inner"):
                    x = x["inner"][0]
                if x.get("kind") == "CXXThisExpr" or c["type"]["qualType"].rstrip().endswith("&") and x.get("kind") == "DeclRefExpr":
                    continue
                if x.get("kind") != "DeclRefExpr":
                    raise Unsupported("capture with an initialiser")
                if not re.search(r"\)\s*const\b", op["type"]["qualType"]):
                    raise Unsupported("mutable lambda with a capture by copy")
                lv = self.lv(x, st)
                held.append((lv, self.read(st, lv)))
        q = op["type"]["qualType"]
        return Opaque("lambda", (parms, body, frame, held, (q.split("->")[-1] if "->" in q else q.split("(")[0]).strip().endswith("&")))

    def fargs(self, f, args, st):
        """arguments of a callable value: locations for reference parameters"""
        if isinstance(f, Ref):
            f = self.read(st, f.lv)
        if isinstance(f, Opaque) and f.what == "lambda":
            if len(f.data[0]) != len(args):
                raise Unsupported("default argument of a lambda")
            return self.args({"inner": f.data[0]}, args, st)
        fn = self.resolve(f.data) if isinstance(f, Opaque) and f.what == "decl" else None
        if fn is not None:
            return self.args(fn, args, st)
        return [self.rv(a, st) for a in args]

    def by_value(self, parms):
        """a library algorithm passes elements: a callable that writes to its arguments is outside the subset"""
        for p in parms:
            q = p.get("type", {}).get("qualType", "").strip()
            if q.endswith("&") and not q.startswith("const ") and not q.endswith("const &"):
                raise Unsupported("callable with a reference parameter")

    def callf(self, f, vals, st, direct=False):
        """apply a callable value to values"""
        if isinstance(f, Ref):
            f = self.read(st, f.lv)
        if isinstance(f, Func):
            return f.fn(*vals)
        if isinstance(f, Opaque) and f.what == "lambda":
            parms, body, frame, held, ref = f.data
            for lv, v in held:
                if self.read(st, lv) is not v:
                    raise Unsupported("a variable captured by copy has changed since")
            if not direct:
                self.by_value(parms)
            for p, v in zip(parms, vals):
                want = self.tyq(p)
                if isinstance(v, Ref):
                    continue
                if isinstance(v, D) and want in ("i", "u", "b", "f") or isinstance(v, T) and (want in ("d", "f") or (want == "b") != (v.s == "B") and want in ("i", "u", "b")):
                    raise Unsupported("argument conversion in a call of a lambda")
            return self.run_body(body, parms, vals, None, frame.tu, st, parent=frame, name="lambda", ref=ref)
        if isinstance(f, Opaque) and f.what == "decl":
            d = f.data
            fn = self.resolve(d)
            if fn is not None:
                if not direct:
                    self.by_value([c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"])
                return self.call(fn, None, vals, st)
            return self.builtin(d["name"], vals, st)
        raise Unsupported("call of %r" % (f,))

    # ------------------------------------------------------------- calls
    def resolve(self, d):
        n = self.prog.ids.get((self.fr.tu, d.get("id")))
        if n is None:
            return None
        m = n.get("mangledName")
        return self.prog.defs.get(m)

    def args(self, fn, args, st):
        parms = [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        vals = []
        for i, a in enumerate(args):
            if a["kind"] == "CXXDefaultArgExpr":
                p = parms[i]
                init = [c for c in p.get("inner", []) if "Expr" in c.get("kind", "") or "Literal" in c.get("kind", "")]
                if not init:
                    raise Unsupported("default argument")
                vals.append(self.rv(init[0], st))
                continue
            if i < len(parms) and self.is_ref(parms[i]):
                vals.append(Ref(self.lv(a, st)))
            else:
                vals.append(self.rv(a, st))
        return vals

    def call(self, fn, this, vals, st):
        if st.dead():
            return Opaque("dead")
        cls = self.prog.cls_of(fn)
        key = (cls, fn.get("name"), nparams(fn))
        c = self.contracts.get(sig(self.prog, fn))
        self.called.add(sig(self.prog, fn))
        if c is not None and not fn["type"]["qualType"].split("(")[0].strip().endswith("&"):
            return c.apply(self, st, this, vals)
        body = [c for c in fn.get("inner", []) if c.get("kind") == "CompoundStmt"]
        if not body:
            raise Unsupported("no body for " + str(fn.get("name")))
        parms = [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        return self.run_body(body[0], parms, vals, this, fn["_tu"], st, fn=fn, name=fn.get("name"))

    def run_body(self, body, parms, vals, this, tu, st, parent=None, fn=None, name="", ref=False):
        """execute a function body in a new frame; st becomes the state after normal return; returns the value"""
        self.depth += 1
        if self.depth > 12:
            self.depth -= 1
            raise Unsupported("recursion")
        saved, savedp = self.fr, self.pend
        fid = next(self.nfid)
        fr = Frame(fid, this, tu, parent, name)
        fr.ref = ref or fn is not None and fn["type"]["qualType"].split("(")[0].strip().endswith("&")
        self.pend = []
        try:
            for p, v in zip(parms, vals):
                if self.is_ref(p):
                    fr.env[p["id"]] = self.hold(v.lv, st) if isinstance(v, Ref) else self.alloc(st, v, "tmp")
                else:
                    key = ("v", fid, p["id"])
                    ty = self.tyq(p)
                    st.mem[key] = v
                    fr.env[p["id"]] = LV(key)
            self.fr = fr
            if fn is not None and fn["kind"] == "CXXConstructorDecl":
                for c in fn.get("inner", []):
                    if c.get("kind") == "CXXCtorInitializer":
                        f = c.get("anyInit", {})
                        x = c["inner"][0]
                        if not f.get("name"):
                            while x["kind"] == "ExprWithCleanups":
                                x = x["inner"][0]
                            if "delegatingInit" not in c or x["kind"] != "CXXConstructExpr":
                                raise Unsupported("base class constructor")
                            args = [a for a in x.get("inner", []) if a["kind"] != "CXXDefaultArgExpr"]
                            other = self.find_ctor(self.prog.cls_of(fn), x, args)
                            if other is None or other is fn:
                                raise Unsupported("delegating constructor")
                            self.call(other, this, self.args(other, args, st), st)
                            continue
                        if x["kind"] == "CXXDefaultInitExpr":
                            x = self.field_init(self.prog.cls_of(fn), f["name"])
                        self.write(st, this.f(f["name"]), self.rv(x, st))
            outs = self.block(body, st)
        finally:
            self.fr = saved
            self.depth -= 1
            mine = self.pend
            self.pend = savedp
        thr = outs.thr + mine
        for s, w in thr:
            self.drop(s, fid)
            self.pend.append((s, w))
        if fn is not None and fn["kind"] in ("FunctionDecl", "CXXMethodDecl") and fn["type"]["qualType"].split("(")[0].strip() not in ("void", "auto"):
            for s in outs.next:
                if not s.dead():
                    self.oblige("safety", "%s returns a value" % fn.get("name"), s, FALSE)
                    s.assume(FALSE)
        rets = [(s, VOID) for s in outs.next] + outs.ret
        rets = [(s, v) for s, v in rets if not s.dead()]
        if outs.brk or outs.cont:
            raise Unsupported("break outside a loop")
        if not rets:
            st.become(State(st.mem, st.pc + (FALSE,)))
            return Opaque("dead")
        if len(rets) == 1:
            s, v = rets[0]
            self.drop(s, fid)
            st.become(s)
            return v
        RK = ("ret", fid)
        ss = []
        for s, v in rets:
            s = s.copy()
            s.mem[RK] = v
            ss.append(s)
        m = merge(ss)
        v = m.mem.pop(RK)
        self.drop(m, fid)
        st.become(m)
        if v is POISON:
            raise Unsupported("returned value differs between paths")
        return v

    def drop(self, s, fid):
        for k in [k for k in s.mem if k[0] == "v" and k[1] == fid]:
            del s.mem[k]

    def e_CallExpr(self, n, st):
        callee = n["inner"][0]
        c = callee
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        args = n["inner"][1:]
        if c["kind"] == "DeclRefExpr":
            d = c["referencedDecl"]
            lv = self.fr.lookup(d["id"])
            if lv is None:
                fn = self.resolve(d)
                if fn is not None:
                    return self.call(fn, None, self.args(fn, args, st), st)
                if d["name"] == "make_unique":
                    return self.make_unique(n, args, st)
                vals = [self.ev(a, st) for a in args if a["kind"] != "CXXDefaultArgExpr"]
                r = self.builtin(d["name"], vals, st, n)
                return self.rnd(r, "f") if isinstance(r, D) and self.tyq(n) == "f" else r
            return self.callf(Ref(lv), self.fargs(Ref(lv), args, st), st, True)
        raise Unsupported("indirect call")

    def e_CXXMemberCallExpr(self, n, st):
        me = n["inner"][0]
        while me["kind"] in ("ParenExpr",):
            me = me["inner"][0]
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call")
        args = n["inner"][1:]
        base = me["inner"][0]
        if me.get("isArrow"):
            p = self.rv(base, st)
            if isinstance(p, Iter):
                p = Ptr(self.deref(p, st).lv)
            if not isinstance(p, Ptr):
                raise Unsupported("call through %r" % (p,))
            lv = p.lv
        else:
            b = self.ev(base, st)
            if isinstance(b, Ref):
                lv = b.lv
            else:
                lv = self.alloc(st, b, "tmp")
        fn = self.resolve({"id": me.get("referencedMemberDecl")})
        if fn is None and self.fr.tu == "bind":
            v = self.read(st, lv)
            if isinstance(v, Obj):
                same = [f for f in self.prog.find(v.cls, me["name"]) if nparams(f) == len(args)]
                if len(same) == 1:
                    fn = same[0]
        if fn is not None:
            return self.call(fn, lv, self.args(fn, args, st), st)
        return self.vec_method(me["name"], lv, args, n, st)

    def e_CXXOperatorCallExpr(self, n, st):
        c = n["inner"][0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        name = c["referencedDecl"]["name"] if c["kind"] == "DeclRefExpr" else None
        if name is None:
            raise Unsupported("operator call")
        args = n["inner"][1:]
        if name == "operator[]":
            b = self.ev(args[0], st)
            lv = b.lv if isinstance(b, Ref) else self.alloc(st, b, "tmp")
            i = self.rv(args[1], st)
            v = self.read(st, lv)
            if isinstance(v, Iter):
                idx = add(v.idx, i)
                vv = self.read(st, v.lv)
                self.valid(v, vv, st)
                self.bounds(st, idx, vv.len, "iterator subscript")
                return Ref(v.lv.i(idx))
            if isinstance(v, Vec):
                i = self.unwrap(i)
                self.bounds(st, i, v.len, "vector subscript")
                return Ref(lv.i(i))
            if isinstance(v, T) and self.tyq(args[0]) == "str":
                return streams.subscript(self, v, self.unwrap(i), st)
            raise Unsupported("subscript of %r" % (v,))
        if name == "operator=":
            l = self.ev(args[0], st)
            v = self.rv(args[1], st)
            if not isinstance(l, Ref):
                raise Unsupported("assignment to a value")
            self.write(st, l.lv, v)
            self.stale(l.lv, st)
            return l
        if name == "operator()":
            f = self.rv(args[0], st)
            return self.callf(f, self.fargs(f, args[1:], st), st, True)
        if name == "operator>>":
            target = self.ev(args[0], st)
            return streams.extract(self, target, self.ev(args[1], st), self.tyq(args[1]), st)
        vals = [self.ev(a, st) for a in args]
        rvs = [self.read(st, v.lv) if isinstance(v, Ref) else v for v in vals]
        op = name[len("operator"):]
        if any(self.tyq(a) == "str" for a in args):
            raise Unsupported("operator on strings")
        if op == "*" and len(args) == 1:
            return self.deref(rvs[0], st)
        if op == "->" and isinstance(rvs[0], Ptr):
            return Ptr(rvs[0].lv)
        if op in ("++", "--") and isinstance(rvs[0], Iter):
            d = 1 if op == "++" else -1
            new = Iter(rvs[0].lv, add(rvs[0].idx, num(d)), rvs[0].n)
            self.write(st, vals[0].lv, new)
            return rvs[0] if len(args) == 2 else vals[0]
        if op in ("+=", "-=") and isinstance(rvs[0], Iter):
            new = self.iter_arith(op[0], rvs[0], rvs[1], st)
            self.write(st, vals[0].lv, new)
            return vals[0]
        if len(rvs) == 2:
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.compare(op, rvs[0], rvs[1])
            if op in ("+", "-"):
                return self.iter_arith(op, rvs[0], rvs[1], st)
        raise Unsupported(name)

    # ------------------------------------------------------------- containers
    def vec_method(self, name, lv, args, n, st):
        v = self.read(st, lv)
        if isinstance(v, Ptr) and name == "get" and not args:
            return Ptr(v.lv)
        if streams.is_stream(v) or isinstance(v, T) and self.tyq(n["inner"][0]["inner"][0]) in ("str",):
            return streams.method(self, v, name, lv, args, st)
        if isinstance(v, Opaque):
            return self.opaque_method(v, name, lv, args, n, st)
        if not isinstance(v, Vec):
            raise Unsupported("method %s of %r" % (name, type(v).__name__))
        if name == "size":
            return v.len
        if name == "empty":
            return eq(v.len, num(0))
        if name in ("begin", "cbegin"):
            return Iter(lv, num(0), v.len)
        if name in ("end", "cend"):
            return Iter(lv, v.len, v.len)
        if name == "at":
            i = self.unwrap(self.rv(args[0], st))
            self.bounds(st, i, v.len, "at()")
            return Ref(lv.i(i))
        if name == "back":
            self.oblige("safety", "back() of a non-empty vector", st, lt(num(0), v.len))
            return Ref(lv.i(sub(v.len, num(1))))
        if name == "front":
            self.oblige("safety", "front() of a non-empty vector", st, lt(num(0), v.len))
            return Ref(lv.i(num(0)))
        if name in ("push_back", "emplace_back"):
            x = self.rv(args[0], st)
            if v.et == "d":
                x = asD(x)
            v = self.read(st, lv)
            self.write(st, lv, vec_push(v, x))
            return VOID
        if name == "pop_back":
            self.oblige("safety", "pop_back() of a non-empty vector", st, lt(num(0), v.len))
            self.write(st, lv, Vec(sub(v.len, num(1)), v.iv, v.body, v.et))
            return VOID
        if name == "clear":
            self.write(st, lv, vec_empty(v.et))
            self.stale(lv, st)
            return VOID
        if name in ("reserve", "shrink_to_fit"):
            for a in args:
                self.rv(a, st)
            self.stale(lv, st)
            return VOID
        if name == "resize":
            k = self.rv(args[0], st)
            x = self.rv(args[1], st) if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr" else default(v.et)
            self.oblige("safety", "vector size is not negative", st, le(num(0), self.unwrap(k)))
            self.write(st, lv, vec_resize(v, self.unwrap(k), asD(x) if v.et == "d" else x))
            return VOID
        if name == "assign":
            a = self.rv(args[0], st)
            b = self.rv(args[1], st)
            if isinstance(a, Iter):
                self.write(st, lv, self.range_copy(a, b, st, v.et))
            else:
                self.oblige("safety", "vector size is not negative", st, le(num(0), self.unwrap(a)))
                self.write(st, lv, vec_fill(self.unwrap(a), asD(b) if v.et == "d" else b, v.et))
            self.stale(lv, st)
            return VOID
        if name == "swap":
            o = self.lv(args[0], st)
            ov = self.read(st, o)
            self.write(st, o, v)
            self.write(st, lv, ov)
            self.stale(lv, st)
            self.stale(o, st)
            return VOID
        if name == "erase":
            b = self.rv(args[0], st)
            e = self.rv(args[1], st) if len(args) > 1 else None
            if not (isinstance(b, Iter) and b.lv.same(lv) and (e is None or isinstance(e, Iter) and e.lv.same(lv))):
                raise Unsupported("erase of another container's range")
            e = Iter(lv, add(b.idx, num(1)), b.n) if e is None else e
            self.range_ok(b, e, v, st)
            k = sub(e.idx, b.idx)
            if e.idx is v.len:
                self.write(st, lv, Vec(b.idx, v.iv, v.body, v.et))
            else:
                self.write(st, lv, vec_fn(sub(v.len, k), lambda i: vite(lt(i, b.idx), v.get(i), v.get(add(i, k))), v.et))
            self.stale(lv, st)
            return Iter(lv, b.idx, self.read(st, lv).len)
        if name == "insert":
            pos = self.rv(args[0], st)
            if isinstance(pos, Iter) and pos.lv.same(lv) and pos.idx is v.len:
                if len(args) == 2:
                    x = self.rv(args[1], st)
                    self.write(st, lv, vec_push(v, asD(x) if v.et == "d" else x))
                    self.stale(lv, st)
                    return Iter(lv, pos.idx, self.read(st, lv).len)
                b, e = self.rv(args[1], st), self.rv(args[2], st)
                if isinstance(b, Iter) and isinstance(e, Iter) and b.lv.same(e.lv):
                    src = self.read(st, b.lv)
                    self.range_ok(b, e, src, st)
                    self.write(st, lv, vec_append(v, sub(e.idx, b.idx), lambda k: src.get(add(b.idx, k))))
                    self.stale(lv, st)
                    return Iter(lv, pos.idx, self.read(st, lv).len)
            raise Unsupported("insert in the middle")
        raise Unsupported("vector method " + name)

    def opaque_method(self, v, name, lv, args, n, st):
        raise Unsupported("method %s of %s" % (name, v.what))

    # ------------------------------------------------------------- library functions
    def builtin(self, name, vals, st, n=None):
        raws = vals
        vals = [self.read(st, v.lv) if isinstance(v, Ref) else v for v in vals]

        def vec(it):
            return self.read(st, it.lv)

        def rng(b, e):
            if not (isinstance(b, Iter) and isinstance(e, Iter) and b.lv.same(e.lv)):
                raise Unsupported("range")
            v = vec(b)
            self.range_ok(b, e, v, st)
            return v, sub(e.idx, b.idx)

        if name in ("abs", "fabs", "fabsf", "labs"):
            x = vals[0]
            if isinstance(x, D):
                q = self.fn_type(n)
                if q.startswith("int") or q.startswith("long"):
                    raise Unsupported("integer abs of a double")
                return D(ite(le(rnum(0), x.v), x.v, neg(x.v)), x.bad)
            x = self.b2i(x)
            return ite(le(num(0), x), x, neg(x))
        if name in ("isnan",):
            return asD(vals[0]).bad
        if name == "isfinite":
            return not_(asD(vals[0]).bad)
        if name in ("exp", "expf"):
            x = asD(vals[0])
            return D(app("exp", (x.v,), "R"), x.bad)
        if name == "pow":
            e = asD(vals[1])
            k = is_num(e.v)
            x = asD(vals[0])
            if k == 2:
                return D(mul(x.v, x.v), or_(x.bad, e.bad))
            if k == 1:
                return x
            if k == -1:
                return D(inv(x.v), or_(x.bad, eq(x.v, rnum(0))))
            raise Unsupported("pow")
        if name in ("floor", "ceil"):
            x = asD(vals[0])
            f = floor(x.v) if name == "floor" else neg(floor(neg(x.v)))
            return D(toR(f), x.bad)
        if name in ("max", "min", "lowest", "epsilon") and not vals and n is not None and self.tyq(n) in ("d", "i"):
            import sys as _s
            if self.tyq(n) == "i":
                if "long" in self.fn_type(n):
                    return num({"max": 2 ** 63 - 1, "min": -2 ** 63, "lowest": -2 ** 63}[name])
                return num({"max": 2 ** 31 - 1, "min": -2 ** 31, "lowest": -2 ** 31}[name])
            f = {"max": _s.float_info.max, "min": _s.float_info.min, "lowest": -_s.float_info.max, "epsilon": _s.float_info.epsilon}[name]
            return D(rnum(Fraction(f)), FALSE)
        if name in ("max", "min", "fmax", "fmin") and len(vals) == 2:
            a, b = vals
            c = self.compare("<", a, b) if name in ("max", "fmax") else self.compare("<", b, a)
            return vite(c, b, a)
        if name == "move" and isinstance(raws[0], Ref) and isinstance(vals[0], (Vec, Obj)):
            self.write(st, raws[0].lv, POISON)      # what is left behind is unspecified
            self.stale(raws[0].lv, st)
            return vals[0]
        if name in ("move", "forward", "ref", "cref", "as_const"):
            return raws[0]
        if name == "swap":
            self.write(st, raws[0].lv, vals[1])
            self.write(st, raws[1].lv, vals[0])
            self.stale(raws[0].lv, st)
            self.stale(raws[1].lv, st)
            return VOID
        if name == "distance":
            if vals[0].lv.same(vals[1].lv):
                return sub(vals[1].idx, vals[0].idx)
            raise Unsupported("distance between containers")
        if name in ("begin", "cbegin"):
            return Iter(raws[0].lv, num(0), vals[0].len if isinstance(vals[0], Vec) else None)
        if name in ("end", "cend"):
            return Iter(raws[0].lv, vals[0].len, vals[0].len)
        if name in ("next", "prev"):
            d = vals[1] if len(vals) > 1 else num(1)
            return self.iter_arith("+" if name == "next" else "-", vals[0], d, st)
        if name == "advance":
            self.write(st, raws[0].lv, self.iter_arith("+", vals[0], vals[1], st))
            return VOID
        if name in ("lower_bound", "upper_bound"):
            b, e, x = vals[:3]
            v, ln = rng(b, e)
            if len(vals) > 3:
                raise Unsupported("comparator")
            x = asD(x) if v.et == "d" else x
            i, j = declare_nonneg(fresh("$p", "I")), fresh("$q", "I")
            el = lambda k: v.get(add(b.idx, k))
            srt = self.compare("<=", el(i), el(add(i, num(1))))
            self.oblige("safety", name + " on a sorted range", st, or_(le(sub(ln, num(1)), i), srt))
            if v.et == "d":
                self.oblige("safety", name + " on a range without NaN", st, or_(le(ln, i), not_(el(i).bad)))
            c = self.compare(">=" if name == "lower_bound" else ">", el(j), x)
            return Iter(b.lv, add(b.idx, first(j, c, ln)), b.n)
        if name in ("find_if", "find_if_not", "any_of", "all_of", "none_of", "count_if"):
            b, e, f = vals[:3]
            v, ln = rng(b, e)
            j = fresh("$q", "I")
            c = self.cond_value(self.pure(f, [v.get(add(b.idx, j))], st, j, ln))
            if name == "find_if":
                return Iter(b.lv, add(b.idx, first(j, c, ln)), b.n)
            if name == "find_if_not":
                return Iter(b.lv, add(b.idx, first(j, not_(c), ln)), b.n)
            if name == "any_of":
                return exists(j, c, ln)
            if name == "none_of":
                return not_(exists(j, c, ln))
            if name == "all_of":
                return forall(j, c, ln)
            return count(j, c, ln)
        if name == "accumulate":
            b, e, init = vals[:3]
            v, ln = rng(b, e)
            j = fresh("$q", "I")
            el = v.get(add(b.idx, j))
            if not isinstance(init, D):
                if isinstance(el, D):
                    return self.sym("int_accumulate", "i")
                return add(init, sum_(j, el, ln))
            if len(vals) > 3:
                f = vals[3]
                acc = D(app("$acc", (), "R"))
                r = asD(self.pure(f, [acc, el], st, j, ln))
                dv = sub(r.v, acc.v)
                if occurs(acc.v, dv) or occurs(acc.v, r.bad):
                    raise Unsupported("accumulate with this operation")
                el = D(dv, r.bad)
            el = asD(el)
            return D(add(init.v, sum_(j, el.v, ln)), or_(init.bad, exists(j, el.bad, ln)))
        if name == "inner_product":
            b, e, b2, init = vals[:4]
            v, ln = rng(b, e)
            v2 = vec(b2)
            self.oblige("safety", "second range long enough", st, and_(le(num(0), b2.idx), le(add(b2.idx, ln), v2.len)))
            j = fresh("$q", "I")
            x, y = asD(v.get(add(b.idx, j))), asD(v2.get(add(b2.idx, j)))
            if not isinstance(init, D) or len(vals) > 4:
                raise Unsupported("inner_product")
            return D(add(init.v, sum_(j, mul(x.v, y.v), ln)), or_(init.bad, exists(j, or_(x.bad, y.bad), ln)))
        if name in ("copy", "transform", "copy_n", "fill", "fill_n", "copy_if", "remove_copy_if", "iota"):
            return self.writer(name, vals, raws, st, rng, vec)
        if name in ("max_element", "min_element", "sort", "stable_sort", "reverse", "unique", "nth_element", "adjacent_find", "for_each"):
            raise Unsupported("algorithm " + name)
        if name in ("__builtin_nan", "__builtin_nanf", "nan", "nanf", "quiet_NaN"):
            return D(rnum(0), TRUE)
        if name == "getline":
            return streams.getline(self, [raws[0], raws[1]] + vals[2:], st)
        if name == "replace":
            return streams.replace(self, vals, st)
        if name == "bind2nd":
            f, y = vals
            return Func(lambda x: self.callf(f, [x, y], st))
        if name == "bind1st":
            f, y = vals
            return Func(lambda x: self.callf(f, [y, x], st))
        if name == "back_inserter":
            return Opaque("back_inserter", raws[0].lv)
        if name in ("round", "nearbyint", "lround"):
            raise Unsupported(name)
        raise Unsupported("function " + name)

    def fn_type(self, n):
        if n is None:
            return ""
        return n.get("type", {}).get("qualType", "")

    def pure(self, f, vals, st, j, ln):
        """value of a callable applied to element j of a range; it must not change anything"""
        s2 = st.copy()
        s2.assume(le(num(0), j))
        s2.assume(lt(j, ln))
        self.loop_idx.append(j)
        nf = len(self.facts)
        np = len(self.pend)
        try:
            r = self.callf(f, vals, s2)
        finally:
            self.loop_idx.pop()
        if any(s2.mem.get(k) is not v for k, v in st.mem.items()) or len(self.pend) > np:
            raise Unsupported("callable with side effects")
        fs = self.facts[nf:]
        del self.facts[nf:]
        for x in fs:
            self.qfacts.append(QFact((j,), x))
        return r

    def writer(self, name, vals, raws, st, rng, vec):
        srcs, ln0 = (), None

        def hidden(out):
            """a callable must not look at the container while it is being written"""
            s = st.copy()
            lv = out.lv if isinstance(out, Iter) else out.data if isinstance(out, Opaque) and out.what == "back_inserter" else None
            if lv is not None:
                self.write(s, lv, POISON)
            return s
        if name == "fill":
            b, e, x = vals
            v, ln = rng(b, e)
            fn = lambda k: (asD(x) if v.et == "d" else x)
            out = b
        elif name == "fill_n":
            out, ln, x = vals
            fn = lambda k: x
        elif name == "iota":
            b, e, x = vals
            v, ln = rng(b, e)
            if n is None or qname(n["inner"][-1]) not in ("double", "int", "long") or (v.et != "d" and isinstance(x, D)):
                raise Unsupported("iota of this type")
            fn = lambda k: (D(add(asD(x).v, toR(k))) if v.et == "d" else add(x, k))
            out = b
        elif name == "copy":
            b, e, out = vals
            v, ln = rng(b, e)
            srcs = (b,)
            fn = lambda k: v.get(add(b.idx, k))
        elif name == "copy_n":
            b, ln, out = vals
            v = vec(b)
            srcs = (b,)
            self.valid(b, v, st)
            self.oblige("safety", "source range lies within its container", st, and_(le(num(0), b.idx), le(add(b.idx, ln), v.len)))
            fn = lambda k: v.get(add(b.idx, k))
        elif name == "transform":
            if len(vals) == 4:
                b, e, out, f = vals
                v, ln = rng(b, e)
                srcs = (b,)
                j = fresh("$q", "I")
                r = self.pure(f, [v.get(add(b.idx, j))], hidden(out), j, ln)
            else:
                b, e, b2, out, f = vals
                v, ln = rng(b, e)
                v2 = vec(b2)
                srcs = (b, b2)
                self.valid(b2, v2, st)
                self.oblige("safety", "second range long enough", st, and_(le(num(0), b2.idx), le(add(b2.idx, ln), v2.len)))
                j = fresh("$q", "I")
                r = self.pure(f, [v.get(add(b.idx, j)), v2.get(add(b2.idx, j))], hidden(out), j, ln)
            fn = lambda k: vsubst(r, {j: k})
        else:
            b, e, out, f = vals
            v, ln0 = rng(b, e)
            srcs = (b,)
            j = fresh("$q", "I")
            c = self.cond_value(self.pure(f, [v.get(add(b.idx, j))], hidden(out), j, ln0))
            if name == "remove_copy_if":
                c = not_(c)
            ln = count(j, c, ln0)
            fn = lambda k: v.get(add(b.idx, nth(j, c, k)))
        if isinstance(out, Opaque) and out.what == "back_inserter":
            dst = self.read(st, out.data)
            if any(x.lv.same(out.data) for x in srcs):
                raise Unsupported("a container appended to itself")
            self.write(st, out.data, vec_append(dst, ln, fn))
            return out
        if not isinstance(out, Iter):
            raise Unsupported("output iterator")
        dst = self.read(st, out.lv)
        self.valid(out, dst, st)
        for src in srcs:
            if src.lv.same(out.lv) and src.idx is not out.idx:
                # written from the front: an element that is still to be read must not be overwritten
                self.oblige("valid", "%s does not overwrite what it still reads" % name, st, or_(le(out.idx, src.idx), le(add(src.idx, ln if ln0 is None else ln0), out.idx)))
        self.oblige("safety", "destination of %s is large enough" % name, st, and_(le(num(0), out.idx), le(add(out.idx, ln), dst.len)))
        self.write(st, out.lv, vec_block(dst, out.idx, ln, fn))
        return Iter(out.lv, add(out.idx, ln), out.n)

    # ------------------------------------------------------------- statements
    def take_pend(self, outs):
        for s, w in self.pend:
            if not s.dead():
                outs.thr.append((s, w))
        self.pend = []

    def block(self, n, st):
        outs = Outs()
        cur = st
        for c in n.get("inner", []):
            if cur is None or cur.dead():
                break
            o = self.stmt(c, cur)
            outs.join(o)
            cur = merge(o.next) if o.next else None
        if cur is not None and not cur.dead():
            outs.next.append(cur)
        return outs

    def stmt(self, n, st):
        k = n.get("kind")
        m = getattr(self, "s_" + k, None)
        outs = None
        loc = n.get("range", {}).get("begin", {})
        if "line" in loc:
            self.where = "%s:%s" % (self.fr.name if self.fr else "", loc["line"])
        if m is not None:
            return m(n, st)
        self.ev(n, st)
        outs = Outs()
        self.take_pend(outs)
        self.clean_tmp(st)
        if not st.dead():
            outs.next.append(st)
        return outs

    def clean_tmp(self, st):
        pass

    def s_CompoundStmt(self, n, st):
        return self.block(n, st)

    def s_NullStmt(self, n, st):
        o = Outs()
        o.next.append(st)
        return o

    def s_DeclStmt(self, n, st):
        outs = Outs()
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl":
                self.declare(d, st)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "UsingDirectiveDecl", "EmptyDecl"):
                pass
            else:
                raise Unsupported("declaration " + d["kind"])
        self.take_pend(outs)
        if not st.dead():
            outs.next.append(st)
        return outs

    def declare(self, d, st):
        if d.get("storageClass") == "static":
            raise Unsupported("static local variable")
        init = [c for c in d.get("inner", []) if c.get("kind") and ("Expr" in c["kind"] or "Literal" in c["kind"] or "Operator" in c["kind"])]
        key = ("v", self.fr.fid, d["id"])
        if self.is_ref(d):
            v = self.ev(init[0], st)
            if isinstance(v, Ref):
                self.fr.env[d["id"]] = self.hold(v.lv, st)
            else:
                self.temporary(init[0])
                self.fr.env[d["id"]] = LV(key)
                st.mem[key] = v
            return
        if init:
            v = self.rv(init[0], st)
            ty = self.tyq(d)
            if ty == "d" and isinstance(v, T):
                v = asD(v)
        else:
            ty = self.tyq(d)
            if isinstance(ty, tuple) and ty[0] == "v":
                v = vec_empty(et_of(ty[1]))
            elif ty in ("str", "ifs", "ss"):
                v = streams.default(ty)
            else:
                v = self.sym("uninit." + d.get("name", ""), ty)
        self.fr.env[d["id"]] = LV(key)
        st.mem[key] = v

    def s_IfStmt(self, n, st):
        outs = Outs()
        inner = [c for c in n["inner"] if c]
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("if with declaration")
        c = self.cond_value(self.rv(inner[0], st))
        self.take_pend(outs)
        if st.dead():
            return outs
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        streams.refine(s1, c)
        streams.refine(s2, not_(c))
        if not s1.dead():
            o = self.stmt(inner[1], s1)
            outs.join(o)
            outs.next.extend(o.next)
        if not s2.dead():
            if len(inner) > 2:
                o = self.stmt(inner[2], s2)
                outs.join(o)
                outs.next.extend(o.next)
            else:
                outs.next.append(s2)
        if len(outs.next) > 1:
            m = merge(outs.next)
            outs.next = [m] if m is not None else []
        return outs

    def s_ReturnStmt(self, n, st):
        outs = Outs()
        v = VOID
        if n.get("inner"):
            v = self.ev(n["inner"][0], st)
            if isinstance(v, Ref):
                x = self.read(st, v.lv)
                v = x if not self.fr.ref else Ref(self.hold(v.lv, st))
        self.take_pend(outs)
        if not st.dead():
            outs.ret.append((st, v))
        return outs

    def s_BreakStmt(self, n, st):
        o = Outs()
        o.brk.append(st)
        return o

    def s_ContinueStmt(self, n, st):
        o = Outs()
        o.cont.append(st)
        return o

    def s_ForStmt(self, n, st):
        init, _, cond, inc, body = (n["inner"] + [None] * 5)[:5]
        outs = Outs()
        before = set(st.mem)
        cur = st
        if init and init.get("kind"):
            o = self.stmt(init, cur)
            outs.join(o)
            cur = merge(o.next)
            if cur is None:
                return outs
        o = self.loop(cur, self.cond_fn(cond), self.body_fn(body, inc))
        outs.join(o)
        outs.next.extend(o.next)
        return outs

    def s_WhileStmt(self, n, st):
        inner = [c for c in n["inner"] if c]
        return self.loop(st, self.cond_fn(inner[0]), self.body_fn(inner[-1], None))

    def s_DoStmt(self, n, st):
        body, cond = n["inner"][0], n["inner"][1]
        outs = Outs()
        o = self.stmt(body, st)
        outs.join(o, skip=("brk", "cont"))
        m = merge(o.next + o.cont)
        if m is not None:
            o2 = self.loop(m, self.cond_fn(cond), self.body_fn(body, None))
            outs.join(o2)
            outs.next.extend(o2.next)
        outs.next.extend(o.brk)
        mm = merge(outs.next)
        outs.next = [mm] if mm is not None else []
        return outs

    def s_CXXForRangeStmt(self, n, st):
        inner = n["inner"]
        init, rng, beg, end, cond, inc, var_, body = inner[:8]
        outs = Outs()
        if init and init.get("kind"):
            raise Unsupported("range-for with initialiser")
        self.declare(rng["inner"][0], st)
        rd = rng["inner"][0]
        rlv = self.fr.env[rd["id"]]
        rv = self.read(st, rlv)
        if not isinstance(rv, Vec):
            raise Unsupported("range-for over %s" % type(rv).__name__)
        bd = beg["inner"][0]
        L = rv.len

        def c(s, i):
            return lt(i, L)

        def b(s, i):
            key = ("v", self.fr.fid, bd["id"])
            self.fr.env[bd["id"]] = LV(key)
            s.mem[key] = Iter(rlv, i, L)
            cur = self.read(s, rlv)
            if cur.len is not L:
                self.oblige("safety", "the container a range-for iterates over keeps its length", s, eq(cur.len, L))
            self.declare(var_["inner"][0], s)
            o = self.stmt(body, s)
            for x in o.next + o.cont:
                nl = self.read(x, rlv).len
                if nl is not L:
                    self.oblige("safety", "the container a range-for iterates over keeps its length", x, eq(nl, L))
            return o
        o = self.loop(st, c, b)
        outs.join(o)
        outs.next.extend(o.next)
        return outs

    def cond_fn(self, cond):
        def f(s, i):
            if not cond or not cond.get("kind"):
                return TRUE
            return self.cond_value(self.rv(cond, s))
        f.ast = cond
        return f

    def body_fn(self, body, inc):
        def f(s, i):
            o = self.stmt(body, s)
            m = merge(o.next + o.cont)
            r = Outs()
            r.join(o, skip=("cont",))
            if m is not None:
                if inc and inc.get("kind"):
                    self.ev(inc, m)
                    self.take_pend(r)
                r.next.append(m)
            return r
        return f

    # ------------------------------------------------------------- loops
    def leaves(self, mem):
        out = {}

        def go(key, path, v):
            if isinstance(v, Obj):
                for f, x in v.f.items():
                    go(key, path + (f,), x)
            else:
                out[(key, path)] = v
        for key, v in mem.items():
            go(key, (), v)
        return out

    def set_leaf(self, st, leaf, val):
        key, path = leaf
        self.write(st, LV(key, tuple(("f", p) for p in path)), val)

    def get_leaf(self, st, leaf):
        key, path = leaf
        return self.read(st, LV(key, tuple(("f", p) for p in path)))

    def silently(self, fn):
        self.quiet += 1
        nf, nq, np, w = len(self.facts), len(self.qfacts), self.pend, self.where
        self.pend = []
        try:
            return fn()
        finally:
            self.quiet -= 1
            del self.facts[nf:]
            del self.qfacts[nq:]
            self.pend = np
            self.where = w

    def iteration(self, S, cond, body, n):
        """one iteration from state S: (cond term, state after the condition, outcomes)"""
        self.loop_idx.append(n)
        try:
            s = S.copy()
            c = cond(s, n)
            after = s.copy()
            if self.pend:
                raise Unsupported("exception in a loop condition")
            s.assume(c)
            streams.refine(s, c)
            outs = body(s, n) if not s.dead() else Outs()
            nx = merge(outs.next + outs.cont)
        finally:
            self.loop_idx.pop()
        return c, after, nx, outs

    def loop(self, st, cond, body):
        import loops
        if streams.uses_extraction(getattr(cond, "ast", None)):
            return streams.unroll(self, st, cond, body)
        return loops.summarise(self, st, cond, body)


def nonneg_goal(g):
    return g.op == "le" and nonneg(neg(g.a[0]))


def symterm(name, deps, s):
    return app(name, deps, s) if deps else var(name, s)


def like(nm, v, deps):
    if isinstance(v, T):
        return symterm(nm, deps, v.s)
    if isinstance(v, D):
        return D(symterm(nm + ".v", deps, "R"), symterm(nm + ".nan", deps, "B"))
    if isinstance(v, Vec):
        NN_APPS.add(nm + ".len")
        iv = new_iv()
        return Vec(symterm(nm + ".len", deps, "I"), iv, sym_elem(nm, v.et, tuple(deps) + (iv,)), v.et, ("sym", nm))
    if isinstance(v, Obj):
        return Obj(v.cls, {k: like(nm + "." + k, x, deps) for k, x in v.f.items()})
    if isinstance(v, Iter):
        return Iter(v.lv, symterm(nm, deps, "I"), v.n)
    raise Unsupported("arbitrary value like %r" % (v,))


def nparams(fn):
    return len([c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"])


def sig(prog, fn):
    """stable name of a function: Class::name(argument types)"""
    q = fn["type"]["qualType"]
    i = j = q.index("(")
    depth = 0
    while True:
        depth += {"(": 1, ")": -1}.get(q[j], 0)
        j += 1
        if not depth:
            break
    # the wide signed integer types are one type here (integers are mathematical)
    a = re.sub(r"(?<=[(,])(const)?(long|longlong|longint|int64_t|std::int64_t|ptrdiff_t|std::ptrdiff_t|constint)(?=[,)])", "int", re.sub(r"\s", "", q[i:j]))
    return "%s::%s%s" % (prog.cls_of(fn) or "", fn.get("name"), re.sub(r"\s", "", a))
