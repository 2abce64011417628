"""Files, strings and string streams, as far as reading numbers from a text file needs them.

A file is a sequence of lines known by `file.lines(name)` (how many) and `file.line(name, i)`; a string is only known by name:
`str.at(s, i)` (characters), `str.len(s)`, `str.comma(s)` (contains a comma), `str.blank(s)` (the same with every comma replaced by
a blank), `str.nf(s)` (how many numbers can be extracted one after the other from its beginning) and `str.num(s, j)` (the j-th of
them). Extraction and getline fail for good once they have failed. A string without commas is its own `str.blank`."""
from terms import *
from terms import NN_APPS
from values import *
from prover import prove

IFS, SS = "$ifstream", "$stringstream"
NN_APPS.update({"file.lines", "str.len", "str.nf"})
NPOS = num(2 ** 64 - 1)


def kind(q):
    q = q.replace("std::", "").replace("__cxx11::", "").strip()
    for pre, k in (("basic_string<char", "str"), ("basic_ifstream<char", "ifs"), ("basic_stringstream<char", "ss"), ("basic_istringstream<char", "ss")):
        if q.startswith(pre):
            return k
    return {"string": "str", "ifstream": "ifs", "stringstream": "ss", "istringstream": "ss", "__string_type": "str"}.get(q)


def opened(f):
    return app("file.opens", (f,), "B")


def lines(f):
    return app("file.lines", (f,), "I")


def line(f, i):
    return app("file.line", (f, i), "I")


def blank(s):
    return s if s.op == "app" and s.a[0] == "str.blank" else app("str.blank", (s,), "I")


def comma(s):
    return FALSE if s.op == "app" and s.a[0] == "str.blank" else app("str.comma", (s,), "B")


def char(s, i):
    return app("str.at", (s, i), "I")


def length(s):
    return app("str.len", (s,), "I")


def fields(s):
    return app("str.nf", (s,), "I")


def number(s, j):
    return app("str.num", (s, j), "R")


EMPTY = var("str.empty", "I")


def is_stream(v):
    return isinstance(v, Obj) and v.cls in (IFS, SS)


def default(k):
    if k == "str":
        return EMPTY
    raise Unsupported("a stream without a source")


def construct(ex, k, args, st):
    vals = [ex.rv(a, st) for a in args if a["kind"] not in ("CXXDefaultArgExpr",) and ex.tyq(a) == "str"]
    if k == "str":
        if not args:
            return EMPTY
        if len(vals) == len(args) == 1:
            return vals[0]
        raise Unsupported("string construction")
    if len(vals) != 1:
        raise Unsupported("stream construction")
    if len(args) > 1 and k == "ifs":
        import json
        t = json.dumps(args[1])
        if '"in"' not in t or any('"%s"' % m in t for m in ("out", "app", "ate", "trunc", "binary")):
            raise Unsupported("stream opened in another mode")
    s = vals[0]
    if k == "ifs":
        return Obj(IFS, {"name": s, "pos": num(0), "ok": opened(s)})
    return Obj(SS, {"name": s, "pos": num(0), "ok": TRUE})


def method(ex, v, name, lv, args, st):
    if is_stream(v):
        if name in ("operator bool",):
            return v.f["ok"]
        if name in ("fail", "operator!", "bad") and name != "bad":
            return not_(v.f["ok"])
        if name == "good" and is_num(v.f["pos"]) == 0 or name == "is_open" and v.cls == IFS and is_num(v.f["pos"]) == 0:
            return v.f["ok"]
        if name == "close" and v.cls == IFS:
            return VOID
        raise Unsupported("stream method " + name)
    s = v
    if name in ("find_first_of", "find"):
        a = ex.ev(args[0], st)
        if len([x for x in args if x["kind"] != "CXXDefaultArgExpr"]) == 1 and (isinstance(a, Opaque) and a.what == "string" and a.data == '","' or isinstance(a, T) and is_num(a) == 44):
            return Opaque("find", s)
        raise Unsupported("string search")
    if name in ("size", "length"):
        return length(s)
    if name == "empty":
        return eq(length(s), num(0))
    if name in ("at", "front"):
        i = ex.unwrap(ex.rv(args[0], st)) if name == "at" else num(0)
        ex.oblige("safety", "string %s() in range" % name, st, and_(le(num(0), i), lt(i, length(s))))
        return char(s, i)
    if name in ("begin", "end"):
        return Iter(lv, num(0) if name == "begin" else length(s))
    raise Unsupported("string method " + name)


def subscript(ex, s, i, st):
    ex.oblige("safety", "string subscript in range", st, and_(le(num(0), i), le(i, length(s))))
    return char(s, i)


def getline(ex, raws, st):
    """std::getline(file, line): the next line, or failure"""
    f, l = raws[0], raws[1]
    if not (isinstance(f, Ref) and isinstance(l, Ref)):
        raise Unsupported("getline")
    v = ex.read(st, f.lv)
    if not (isinstance(v, Obj) and v.cls == IFS) or (len(raws) > 2 and is_num(raws[2]) != 10):
        raise Unsupported("getline")
    got = and_(v.f["ok"], lt(v.f["pos"], lines(v.f["name"])))
    ex.write(st, l.lv, line(v.f["name"], v.f["pos"]))      # what it is after a failure is left open: line() is arbitrary there
    ex.write(st, f.lv, Obj(IFS, {"name": v.f["name"], "pos": add(v.f["pos"], num(1)), "ok": got}))
    return f


def extract(ex, target, dst, ty, st):
    """stream >> x"""
    if not (isinstance(target, Ref) and isinstance(dst, Ref)) or ty != "d":
        raise Unsupported("stream extraction")
    v = ex.read(st, target.lv)
    if not (isinstance(v, Obj) and v.cls == SS):
        raise Unsupported("stream extraction")
    s, p = v.f["name"], v.f["pos"]
    got = and_(v.f["ok"], lt(p, fields(s)))
    ex.write(st, dst.lv, vite(got, D(number(s, p)), ex.sym("unread", "d")))
    ex.write(st, target.lv, Obj(SS, {"name": s, "pos": add(p, num(1)), "ok": got}))
    return target


def replace(ex, vals, st):
    b, e, x, y = vals
    if not (isinstance(b, Iter) and isinstance(e, Iter) and b.lv.same(e.lv)):
        raise Unsupported("replace")
    s = ex.read(st, b.lv)
    if not (isinstance(s, T) and is_num(b.idx) == 0 and e.idx is length(s) and is_num(x) == 44 and is_num(y) == 32):
        raise Unsupported("replace")
    ex.write(st, b.lv, blank(s))
    return VOID


def refine(st, c):
    """use a condition that holds from here on to simplify what is known of streams and strings"""
    parts = set(c.a) if c.op == "and" else {c}
    for key, v in st.mem.items():
        if is_stream(v):
            ok = v.f["ok"]
            need = set(ok.a) if ok.op == "and" else {ok}
            if ok is not TRUE and need <= parts:
                st.mem[key] = v = Obj(v.cls, dict(v.f, ok=TRUE))
            elif not_(ok) in parts:
                st.mem[key] = v = Obj(v.cls, dict(v.f, ok=FALSE))
    for x in parts:
        if x.op == "not" and x.a[0].op == "app" and x.a[0].a[0] == "str.comma":
            s = x.a[0].a[1][0] if isinstance(x.a[0].a[1], tuple) else x.a[0].a[1]
            for key, v in st.mem.items():
                if v is s:
                    st.mem[key] = blank(s)


def uses_extraction(ast):
    if isinstance(ast, dict):
        if ast.get("referencedDecl", {}).get("name") == "operator>>":
            return True
        return any(uses_extraction(x) for x in ast.get("inner", []) if x)
    return False


def unroll(ex, st, cond, body, most=5):
    """a loop that extracts numbers in its condition: executed round by round until it provably stops"""
    import cexec
    res, exits, S = cexec.Outs(), [], st
    for i in range(most):
        s = S.copy()
        c = cond(s, num(i))
        after = s.copy()
        after.assume(not_(c))
        refine(after, not_(c))
        if not after.dead():
            exits.append(after)
        s.assume(c)
        refine(s, c)
        if s.dead():
            break
        if i and prove(list(ex.facts) + list(s.pc), ex.qfacts + ex.deffacts, FALSE, timeout=3, rounds=2, use_cvc5=False)[0]:
            ex.oblige("loop", "the loop stops after at most %d rounds" % i, s, FALSE)
            break
        o = body(s, num(i))
        res.join(o, skip=("brk", "cont"))
        exits += o.brk
        S = cexec.merge(o.next + o.cont)
        if S is None:
            break
    else:
        raise Unsupported("a loop that reads more numbers than a row has")
    m = cexec.merge(exits)
    if m is not None:
        res.next.append(m)
    return res
