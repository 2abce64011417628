"""Loop summaries: closed forms of everything a loop changes, as functions of the iteration number.

Every closed form is only a candidate here; `summarise` emits obligations (kind 'loop') that it holds at iteration 0 and is
preserved by the body, so a wrong guess can never make a false property look true."""
import terms as t_
from terms import *
from values import *
from prover import QFact, prove
import cexec


def own_names(nm):
    return {nm, nm + ".v", nm + ".nan", nm + ".i", nm + ".b", nm + ".len", nm + ".len2", nm + ".e.v", nm + ".e.nan", nm + ".e.i", nm + ".e.b"}


def linear(t, n):
    """t = a + s*n with a, s free of n; returns (a, s) or None"""
    a, s = {}, {}
    for m, c in t_._p(t).items():
        k = [x for x in m if x is n]
        rest = tuple(x for x in m if x is not n)
        if any(occurs(n, x) for x in rest):
            return None
        if len(k) == 0:
            a[m] = c
        elif len(k) == 1:
            s[rest] = c
        else:
            return None
    return t_._mkpoly(a, t.s), t_._mkpoly(s, t.s)


def dsub(new, sym):
    """new - sym, pushed into conditionals"""
    if new.op == "ite":
        return ite(new.a[0], dsub(new.a[1], sym), dsub(new.a[2], sym))
    d = sub(new, sym)
    if occurs(sym, d) and new.op == "poly":
        # a conditional inside a sum: pull it out when it is the only thing mentioning sym
        for m, c in new.a:
            if len(m) == 1 and c == 1 and m[0].op == "ite" and occurs(sym, m[0]):
                rest = sub(new, m[0])
                if not occurs(sym, rest):
                    return add(dsub(m[0], sym), rest)
    return d


def flatten(new, sym):
    """new as (condition, value): ite(condition, value, sym) with one value"""
    if new is sym:
        return FALSE, None
    if new.op != "ite":
        return TRUE, new
    c, a, b = new.a
    x, y = flatten(a, sym), flatten(b, sym)
    if x is None or y is None:
        return None
    if x[1] is not None and y[1] is not None and x[1] is not y[1]:
        return None
    return or_(and_(c, x[0]), and_(not_(c), y[0])), x[1] if x[1] is not None else y[1]


def solve_scalar(sym, new, v0, n):
    """closed form in n of the recurrence  sym(0) = v0, sym(n+1) = new(sym(n), n)"""
    if new is sym:
        return v0
    if not occurs(n, v0) and subst(new, {sym: v0}) is v0:
        return v0
    nm = {sym.a[0]} if sym.op in ("app", "var") else set()
    if not mentions(new, nm):
        if not occurs(n, new):
            return ite(le(n, num(0)), v0, new)
        return ite(le(n, num(0)), v0, subst(new, {n: sub(n, num(1))}))
    mute = subst(new, {sym: fresh("$s", sym.s)})
    if mentions(mute, nm):
        return None
    m = fresh("$m", "I")
    at = lambda t: subst(t, {n: m})
    if new.s == "B":
        c, d = subst(new, {sym: FALSE}), subst(new, {sym: TRUE})
        if d is TRUE or or_(d, c) is TRUE:
            return or_(v0, exists(m, at(c), n))
        if c is FALSE:
            return and_(v0, forall(m, at(d), n))
        if c is d:
            return solve_scalar(sym, c, v0, n)
        return None
    delta = dsub(new, sym)
    if not occurs(sym, delta):
        return add(v0, sum_(m, at(delta), n))
    f = flatten(new, sym)
    if f is None or f[1] is None:
        return None
    C, a = f
    if occurs(sym, a):
        return None
    if not occurs(sym, C):
        if not occurs(n, a):
            return ite(exists(m, at(C), n), a, v0)
        last = sub(sub(n, num(1)), first(m, subst(C, {n: sub(sub(n, num(1)), m)}), n))
        return ite(exists(m, at(C), n), subst(a, {n: last}), v0)
    lits = list(C.a) if C.op == "and" else [C]
    on = [x for x in lits if occurs(sym, x)]
    off = [x for x in lits if not occurs(sym, x)]
    if len(on) == 1 and a.s == "R":
        if on[0] is lt(a, sym) or on[0] is le(a, sym):
            return minf(m, at(and_(*off)), at(a), v0, n)
        if on[0] is lt(sym, a) or on[0] is le(sym, a):
            return neg(minf(m, at(and_(*off)), at(neg(a)), neg(v0), n))
    return None


def norm(v, h):
    """the operations that lead from vector h to vector v"""
    if identical(v, h):
        return []
    op = v.op
    if op is None:
        return None
    if op[0] == "store":
        b = norm(op[1], h)
        if b is None:
            return None
        if b and b[-1][0] == "store" and b[-1][1] is op[2]:
            b = b[:-1]
        return b + [("store", op[2], op[3])]
    if op[0] == "push":
        b = norm(op[1], h)
        return None if b is None else b + [("append", num(1), new_iv(), op[2])]
    if op[0] == "append":
        b = norm(op[1], h)
        return None if b is None else b + [("append", op[2], op[3], op[4])]
    if op[0] == "block":
        b = norm(op[1], h)
        return None if b is None else b + [("block", op[2], op[3], op[4], op[5])]
    if op[0] == "ite":
        c, A, Bv = op[1:]
        a, b = norm(A, h), norm(Bv, h)
        if a is None or b is None:
            return None
        if len(a) == 1 and not b and a[0][0] == "append" and is_num(a[0][1]) == 1:
            return [("cpush", c, vsubst(a[0][3], {a[0][2]: num(0)}))]
        if len(b) == 1 and not a and b[0][0] == "append" and is_num(b[0][1]) == 1:
            return [("cpush", not_(c), vsubst(b[0][3], {b[0][2]: num(0)}))]
        if len(a) == 1 and not b and a[0][0] == "cpush":
            return [("cpush", and_(c, a[0][1]), a[0][2])]
        if len(b) == 1 and not a and b[0][0] == "cpush":
            return [("cpush", and_(not_(c), b[0][1]), b[0][2])]
        if len(a) == 1 and not b and a[0][0] == "store":
            return [("store", a[0][1], vite(c, a[0][2], h.get(a[0][1])))]
        if len(b) == 1 and not a and b[0][0] == "store":
            return [("store", b[0][1], vite(c, h.get(b[0][1]), b[0][2]))]
        if len(a) == 1 and len(b) == 1:
            x, y = a[0], b[0]
            if x[0] == y[0] == "store" and x[1] is y[1]:
                return [("store", x[1], vite(c, x[2], y[2]))]
            if x[0] == y[0] == "append" and x[1] is y[1]:
                return [("append", x[1], x[2], vite(c, x[3], vsubst(y[3], {y[2]: x[2]})))]
        if len(a) == len(b) and all(identical_op(x, y) for x, y in zip(a, b)):
            return a
    return None


def identical_op(x, y):
    return x[0] == y[0] and all(p is q or (not isinstance(p, (T, str)) and identical(p, q)) for p, q in zip(x[1:], y[1:]))


class NoForm(Exception):
    pass


def replace_own(ex, val, nm, deps_n, idx, v0):
    """in val, elements of the vector itself (symbol nm, at iteration n) at index idx are still those of v0"""
    e0 = v0.get(idx)
    nd = len(deps_n)

    def mk(part):
        def f(*args):
            if len(args) == nd + 1 and args[-1] is idx:
                return part
            raise NoForm()
        return f
    fm = {}
    if isinstance(e0, D):
        fm = {nm + ".v": mk(e0.v), nm + ".nan": mk(e0.bad)}
    elif isinstance(e0, T):
        fm = {nm + (".i" if e0.s == "I" else ".b"): mk(e0)}
    elif isinstance(e0, Vec):
        fm = {nm + ".len2": mk(e0.len)}
        bd = e0.body

        def mk2(part):
            def f(*args):
                if len(args) == nd + 2 and args[-2] is idx:
                    return subst(part, {e0.iv: args[-1]})
                raise NoForm()
            return f
        if isinstance(bd, D):
            fm.update({nm + ".e.v": mk2(bd.v), nm + ".e.nan": mk2(bd.bad)})
        elif isinstance(bd, T):
            fm[nm + (".e.i" if bd.s == "I" else ".e.b")] = mk2(bd)
    fm[nm + ".len"] = lambda *a: v0.len
    return vfsubst(val, fm)


def solve_value(ex, symv, new, v0, n, deps_n, nm, fm):
    """closed form of a value (scalar, double or vector) or None"""
    if isinstance(v0, D) or isinstance(symv, D):
        new, v0 = asD(new), asD(v0)
        nb, nv = fsubst(new.bad, fm), fsubst(new.v, fm)
        b = solve_scalar(symv.bad, nb, v0.bad, n) if not mentions(nb, {symv.v.a[0]}) or (not occurs(n, v0.bad) and subst(nb, {symv.bad: v0.bad}) is v0.bad) else None
        if b is None:
            return None
        nv = subst(nv, {symv.bad: b})
        v = solve_scalar(symv.v, nv, v0.v, n)
        if v is None:
            return None
        return D(v, b)
    if isinstance(v0, T):
        return solve_scalar(symv, fsubst(new, fm), v0, n)
    if isinstance(v0, Iter):
        if not (isinstance(new, Iter) and new.lv.same(v0.lv)):
            return None
        if (fsubst(new.n, fm) if new.n is not None else None) is not v0.n:
            return None
        r = solve_scalar(symv.idx, fsubst(new.idx, fm), v0.idx, n)
        return None if r is None else Iter(v0.lv, r, v0.n)
    if isinstance(v0, Vec):
        ops = norm(new, symv)
        names = own_names(nm)
        if ops is None:
            nv = vfsubst(new, fm)
            if not vocc(nv, names):           # rebuilt from scratch every time
                m1 = vsubst(nv, {n: sub(n, num(1))}) if vocc_term(nv, n) else nv
                return vite(le(n, num(0)), v0, m1)
            return None
        ops = [tuple(vfsubst(x, fm) if isinstance(x, (T, D, Vec, Obj)) and i else x for i, x in enumerate(o)) for o in ops]
        if not ops:
            return v0
        if len(ops) > 1:
            if all(o[0] == "append" and is_num(o[1]) is not None for o in ops):
                tot = sum(int(is_num(o[1])) for o in ops)
                k = new_iv()
                val, off = None, 0
                parts = []
                for o in ops:
                    parts.append((off, vsubst(o[3], {o[2]: sub(k, num(off))})))
                    off += int(is_num(o[1]))
                val = parts[-1][1]
                for (o_, x), (nx_, _) in reversed(list(zip(parts[:-1], parts[1:]))):
                    val = vite(lt(k, num(nx_)), x, val)
                ops = [("append", num(tot), k, val)]
            else:
                return None
        o = ops[0]
        try:
            return solve_op(ex, symv, o, v0, n, deps_n, nm, names)
        except NoForm:
            return None
    return None


def vocc_term(v, n):
    return vocc(v, {n.a[0]})


def solve_op(ex, symv, o, v0, n, deps_n, nm, names):
    iv = v0.iv
    if o[0] == "store":
        _, i, val = o
        if mentions(i, names):
            return None
        ln = linear(i, n)
        if ln is None:
            return None
        a, s = ln
        if is_num(s) == 0:
            sub_sym = symv.get(i)
            r = solve_value(ex, sub_sym, val, v0.get(i), n, deps_n, nm, {nm + ".len": lambda *x: v0.len})
            if r is None or vocc(r, names):
                return None
            return vec_store(v0, i, r)
        val = replace_own(ex, val, nm, deps_n, i, v0)
        if vocc(val, names):
            # a nested vector stored back after changes
            return None
        if is_num(s) == 1:
            return vec_block(v0, a, n, lambda k: vsubst(val, {n: k}))
        if is_num(s) == -1:
            m = sub(a, iv)
            c = and_(le(iv, a), lt(m, n))
        else:
            m = idiv(sub(iv, a), s)
            c = and_(le(a, iv), lt(m, n), eq(iv, add(a, mul(s, m))))
        return Vec(v0.len, iv, vite(c, vsubst(val, {n: m}), v0.body), v0.et)
    if o[0] == "append":
        _, cnt, k, val = o
        if vocc(val, names) or mentions(cnt, names):
            return None
        if not occurs(n, cnt):
            if is_num(cnt) == 1:
                return vec_append(v0, n, lambda q: vsubst(val, {k: num(0), n: q}))
            return vec_append(v0, mul(cnt, n), lambda q: vsubst(val, {n: idiv(q, cnt), k: sub(q, mul(cnt, idiv(q, cnt)))}))
        return ragged(ex, v0, cnt, k, val, n)
    if o[0] == "cpush":
        _, c, val = o
        if vocc(val, names) or mentions(c, names):
            return None
        m = fresh("$m", "I")
        cm, val = subst(c, {n: m}), vunder(val, c)
        return vec_append(v0, count(m, cm, n), lambda q: vsubst(val, {n: nth(m, cm, q)}))
    if o[0] == "block":
        _, lo, cnt, k, val = o
        if mentions(lo, names) or mentions(cnt, names):
            return None
        ln = linear(lo, n)
        if ln is None:
            return None
        a, s = ln
        val = replace_own(ex, val, nm, deps_n, add(lo, k), v0)
        if vocc(val, names) or is_num(s) == 0:
            return None
        m = idiv(sub(iv, a), s)
        r = sub(sub(iv, a), mul(s, m))
        c = and_(le(a, iv), lt(m, n), lt(r, subst(cnt, {n: m})))
        if cnt is s:
            c = and_(le(a, iv), lt(iv, add(a, mul(s, n))))
            q = new_iv()
            mm = idiv(q, s)
            return Vec(v0.len, iv, vite(c, vsubst(val, {n: m, k: r}), v0.body), v0.et,
                       ("block", v0, a, mul(s, n), q, vsubst(val, {n: mm, k: sub(q, mul(s, mm))})))
        return Vec(v0.len, iv, vite(c, vsubst(val, {n: m, k: r}), v0.body), v0.et)
    return None


RAGGED = {}     # the concatenations met so far, for evaluation only


def ragged(ex, v0, cnt, k, val, n):
    """concatenation of rows of different lengths"""
    nm = fresh_name("flat")
    deps = tuple(ex.loop_idx)
    m, r = fresh("$m", "I"), fresh("$r", "I")
    off = sum_(m, subst(cnt, {n: m}), n)
    e = sym_elem(nm, v0.et, deps + (v0.iv,))
    at = sym_elem(nm, v0.et, deps + (add(subst(off, {n: m}), r),))
    v = vsubst(val, {n: m, k: r})
    same = and_(*[g for _, _, g in veq_goals(at, v)])
    guard = and_(le(num(0), m), le(num(0), r), lt(r, subst(cnt, {n: m})))
    ex.deffacts.append(QFact((m, r), imp(guard, same)))
    if not deps:
        RAGGED[nm] = (m, r, subst(cnt, {n: m}), v)
    body = vsubst(e, {v0.iv: sub(v0.iv, v0.len)})
    if is_num(v0.len) != 0:
        body = vite(lt(v0.iv, v0.len), v0.body, body)
    return Vec(add(v0.len, off), v0.iv, body, v0.et)


def symfun(nm, v, cf, n, nd):
    """functions replacing the symbols of a leaf by its closed form cf(n)"""
    out = {}

    def put(name, part):
        out[name] = lambda *a: subst(part, {n: a[nd - 1]})
    if isinstance(v, T):
        put(nm, cf)
    elif isinstance(v, D):
        c = asD(cf)
        put(nm + ".v", c.v)
        put(nm + ".nan", c.bad)
    elif isinstance(v, Iter):
        put(nm, cf.idx)
    elif isinstance(v, Vec):
        put(nm + ".len", cf.len)

        def elem(base, vec_at, extra):
            # vec_at(args) -> (Vec, index)
            b = cf.body if extra == 0 else None
        iv = cf.iv
        bd = cf.body

        def puts(base, body, ivs):
            if isinstance(body, D):
                out[base + ".v"] = lambda *a: subst(body.v, dict([(n, a[nd - 1])] + list(zip(ivs, a[nd:]))))
                out[base + ".nan"] = lambda *a: subst(body.bad, dict([(n, a[nd - 1])] + list(zip(ivs, a[nd:]))))
            elif isinstance(body, T):
                out[base + (".i" if body.s == "I" else ".b")] = lambda *a: subst(body, dict([(n, a[nd - 1])] + list(zip(ivs, a[nd:]))))
            elif isinstance(body, Vec):
                ln = body.len
                out[base + ".len2"] = lambda *a: subst(ln, dict([(n, a[nd - 1])] + list(zip(ivs, a[nd:]))))
                puts(base + ".e", body.body, ivs + [body.iv])
        puts(nm, bd, [iv])
    return out


def summarise(ex, st, cond, body):
    n = declare_nonneg(fresh("n", "I"))
    entry = st
    base_len = len(entry.pc)
    leaves0 = ex.leaves(entry.mem)
    deps_n = tuple(ex.loop_idx) + (n,)
    nd = len(deps_n)
    H = {}

    def state(vals):
        S = entry.copy()
        for leaf, v in vals.items():
            ex.set_leaf(S, leaf, v)
        return S

    for _ in range(8):
        S = state({l: v for l, (nm, v) in H.items()})
        c, after, nx, outs = ex.silently(lambda: ex.iteration(S, cond, body, n))
        new = []
        for stt in (after, nx):
            if stt is None:
                continue
            ls = ex.leaves({k: stt.mem[k] for k in entry.mem if k in stt.mem})
            for leaf, v0 in leaves0.items():
                if leaf not in ls:
                    raise Unsupported("object destroyed inside a loop")
                cur = H[leaf][1] if leaf in H else v0
                if not identical(ls[leaf], cur) and leaf not in H and leaf not in new:
                    new.append(leaf)
        if not new:
            break
        for leaf in new:
            nm = fresh_name("h." + ".".join([str(leaf[0][0])] + list(leaf[1])))
            v0 = leaves0[leaf]
            nv = [ex.leaves(x.mem).get(leaf) for x in (nx, after) if x is not None][0]
            if isinstance(nv, D) and not isinstance(v0, D):
                v0 = asD(v0)
                leaves0[leaf] = v0
            if nv is POISON:
                raise Unsupported("value differs between paths in a loop")
            H[leaf] = (nm, cexec.like(nm, v0, deps_n))
    else:
        raise Unsupported("loop state does not stabilise")

    # ---- closed forms
    hint = ex.hint
    L1 = ex.leaves(nx.mem) if nx is not None else {}
    fm, cf, table = {}, {}, {}
    pending = list(H)
    if hint is not None:
        for leaf in list(pending):
            role = hint.table_role(ex, leaf)
            if role:
                table[leaf] = role
                pending.remove(leaf)
    if nx is None:
        for leaf in pending:
            cf[leaf] = leaves0[leaf]
        pending = []
    invfacts = []
    progress = True
    while pending and progress:
        progress = False
        joint_candidates(ex, hint, pending, H, L1, leaves0, n, nd, nx, fm, cf, base_len)
        for leaf in list(pending):
            nm, symv = H[leaf]
            new = L1[leaf]
            others = set()
            for l2 in pending:
                if l2 != leaf:
                    others |= own_names(H[l2][0])
            r = None
            v0 = leaves0[leaf]
            simple = not vocc(vfsubst(strip_own(new, H[leaf]), fm), others)
            if hint is not None and isinstance(v0, T) and simple:
                for cand in hint.scalars(n, v0.s):
                    if try_candidate(ex, cand, v0, fsubst(new, fm), symv, n, nx, fm, hint, base_len):
                        r = cand
                        break
            if r is None:
                r = solve_value(ex, symv, new, v0, n, deps_n, nm, fm)
                if r is not None and vocc(r, others | own_names(nm)):
                    r = None
            if r is None and isinstance(v0, Vec) and hasattr(hint, "vectors") and not vocc(vfsubst(new, fm), others):
                r = vector_candidate(ex, hint, nm, symv, new, v0, n, nd, nx, fm, base_len)
            if r is not None:
                cf[leaf] = r
                fm.update(symfun(nm, symv, r, n, nd))
                pending.remove(leaf)
                progress = True
    if pending:
        raise Unsupported("no closed form for " + ", ".join(".".join([str(l[0])] + list(l[1])) for l in pending))

    # ---- number of iterations
    cc = fsubst(c, fm)
    tabnames = set()
    for leaf in table:
        tabnames |= own_names(H[leaf][0])
    exits = []
    for s in outs.brk + [x for x, _ in outs.ret] + [x for x, _ in outs.thr]:
        exits.append(and_(*[fsubst(x, fm) for x in s.pc[base_len:]]))
    E = or_(*exits) if nx is not None else TRUE
    # conditions other than the loop condition itself
    E = or_(*[and_(*[y for y in (x.a if x.op == "and" else (x,)) if y is not cc]) for x in exits]) if nx is not None else TRUE
    if mentions(cc, tabnames) or mentions(E, tabnames):
        raise Unsupported("loop condition depends on abstracted state")
    CNT, bound, term = iterations(ex, cc, E, n)
    if term is not None:
        ex.oblige("terminates", "the loop terminates", entry, term)

    # ---- the real run, from the closed forms
    S = state({l: v for l, v in cf.items()} | {l: H[l][1] for l in table})
    npc = len(S.pc)
    S.assume(le(n, CNT))
    nf = len(ex.facts)
    if table:
        vals = {role: H[l][1] for l, role in table.items()}
        for lab, vs, f in hint.invariant(ex, vals, n):
            (ex.qfact(S, vs, f) if vs else ex.fact(S, f))
        vals0 = {role: leaves0[l] for l, role in table.items()}
        for lab, vs, f in hint.invariant(ex, vals0, num(0)):
            ex.oblige("loop", "table invariant holds initially: " + lab, entry, f)
    nq = len(ex.qfacts)
    if table:
        # quantified invariant facts at this iteration stay usable only inside the body
        pass
    c, after, nx, outs = ex.iteration(S, cond, body, n)
    if nx is not None:
        ls = ex.leaves(nx.mem)
        for leaf, r in cf.items():
            goals = veq_goals(ls[leaf], vsubst(r, {n: add(n, num(1))}), leafname(leaf))
            for lab, vs, g in goals:
                ex.oblige("loop", "closed form preserved: " + lab, nx, g)
        for leaf, v in leaves0.items():
            if leaf not in H and not identical(ls[leaf], v):
                raise Unsupported("loop effect not found by the dry run")
        if table:
            vals1 = {role: ls[l] for l, role in table.items()}
            for lab, vs, f in hint.invariant(ex, vals1, add(n, num(1))):
                ex.oblige("loop", "table invariant preserved: " + lab, nx, f)
    for leaf, r in cf.items():
        for lab, vs, g in veq_goals(leaves0[leaf], vsubst(r, {n: num(0)}), leafname(leaf)):
            ex.oblige("loop", "closed form holds initially: " + lab, entry, g)
    # facts found in the body hold for every iteration
    fs = ex.facts[nf:]
    del ex.facts[nf:]
    for f in fs:
        if occurs(n, f):
            ex.qfacts.append(QFact((n,), f))
        else:
            ex.facts.append(f)
    for k, q in enumerate(ex.qfacts):
        if (k >= nq or table) and occurs(n, q.body) and n not in q.vars:
            ex.qfacts[k] = QFact(q.vars + (n,), q.body, q.notrig, q.terms)

    # ---- exit states
    def at_exit(s):
        pc = tuple(subst(x, {n: CNT}) for x in s.pc)
        mem = {k: vsubst(v, {n: CNT}) for k, v in s.mem.items() if k in entry.mem or k[0] in ("heap", "global")}
        return State_(mem, tuple(x for x in pc if x is not TRUE))
    res = cexec.Outs()
    nxt = []
    e = after.copy()
    simple_exit = E is FALSE
    e = at_exit(e)
    # condition false at the exit iteration (automatically so when the bound is explicit and there is no break)
    ncc = subst(not_(c), {n: CNT})
    if not (simple_exit and bound is not None):
        e.assume(ncc)
    if not e.dead() and cc is not TRUE:
        nxt.append(e)
    for s in outs.brk:
        x = at_exit(s)
        if not x.dead():
            nxt.append(x)
    m = cexec.merge(nxt)
    if m is not None:
        res.next.append(m)
    for s, v in outs.ret:
        x = at_exit(s)
        if not x.dead():
            res.ret.append((x, vsubst(v, {n: CNT})))
    for s, w in outs.thr:
        x = at_exit(s)
        if not x.dead():
            res.thr.append((x, w))
    return res


def State_(mem, pc):
    return cexec.State(mem, pc)


def leafname(leaf):
    return ".".join([str(leaf[0][0])] + list(leaf[1]))


def strip_own(v, h):
    return v


def try_candidate(ex, cand, v0, new, symv, n, nx, fm, hint, base_len):
    if subst(cand, {n: num(0)}) is not v0:
        ok, _ = prove(list(ex.facts) + list(nx.pc[:base_len]), ex.qfacts + hint.lemmas, eq(subst(cand, {n: num(0)}), v0), timeout=3, rounds=2, use_cvc5=False)
        if not ok:
            return False
    pc = [subst(fsubst(x, fm), {symv: cand}) for x in nx.pc]
    goal = eq(subst(new, {symv: cand}), subst(cand, {n: add(n, num(1))}))
    ok, how = prove(list(ex.facts) + pc, ex.qfacts + hint.lemmas, goal, timeout=4, rounds=3, use_cvc5=False)
    return ok


def joint_candidates(ex, hint, pending, H, L1, leaves0, n, nd, nx, fm, cf, base_len):
    """closed forms for conditions that depend on each other, taken from the hint's list"""
    import itertools
    group = [l for l in pending if isinstance(leaves0[l], T) and leaves0[l].s == "B"]
    cands = hint.joint(n) if hint is not None and hasattr(hint, "joint") else []
    if not cands or not group or len(group) > 3:
        return
    at0 = lambda c: subst(c, {n: num(0)})
    fits = []
    for l in group:
        ok = [c for c in cands if at0(c) is leaves0[l] or prove(list(ex.facts), ex.qfacts, eq(at0(c), leaves0[l]), timeout=2, rounds=1, use_cvc5=False)[0]]
        fits.append(ok)
    for pick in itertools.product(*fits):
        m = {H[l][1]: c for l, c in zip(group, pick)}
        f = lambda t: subst(fsubst(t, fm), m)
        pc = [f(x) for x in nx.pc]
        if all(prove(list(ex.facts) + pc, ex.qfacts + hint.lemmas, eq(f(L1[l]), subst(c, {n: add(n, num(1))})), timeout=3, rounds=3, use_cvc5=False)[0]
               for l, c in zip(group, pick)):
            for l, c in zip(group, pick):
                cf[l] = c
                fm.update(symfun(H[l][0], H[l][1], c, n, nd))
                pending.remove(l)
            return


def vector_candidate(ex, hint, nm, symv, new, v0, n, nd, nx, fm, base_len):
    for cand in hint.vectors(n):
        if cand.et != v0.et:
            continue
        own = dict(fm)
        own.update(symfun(nm, symv, cand, n, nd))
        pc = [fsubst(x, own) for x in nx.pc]
        got = vfsubst(new, own)
        goals = veq_goals(vsubst(cand, {n: num(0)}), v0, "") + veq_goals(got, vsubst(cand, {n: add(n, num(1))}), "")
        if all(prove(list(ex.facts) + pc, ex.qfacts + ex.deffacts, g, timeout=4, rounds=3, use_cvc5=False)[0] for _, _, g in goals):
            return cand
    return None


def iterations(ex, c, E, n):
    """(CNT, explicit bound or None, termination goal or None)"""
    lits = list(c.a) if c.op == "and" else [c]
    L, rest = None, []
    term = None
    for x in lits:
        b = None
        if L is None:
            b = upper(x, n)
        if b is not None:
            L = b
            if x.op == "not":
                term = le(num(0), b)
        elif x is not TRUE:
            rest.append(x)
    stop = or_(E, *[not_(x) for x in rest])
    if L is not None:
        Lp = L if nonneg(L) else ite(le(num(0), L), L, num(0))
        if stop is FALSE:
            return Lp, L, term
        m = fresh("$m", "I")
        return first(m, subst(stop, {n: m}), Lp), (L if not rest else None), term
    if stop is FALSE:
        raise Unsupported("loop without exit")
    m = fresh("$m", "I")
    CNT = least(m, subst(stop, {n: m}))
    # progress: some conjunct of the condition is eventually false
    for x in lits + [not_(d) for d in (E.a if E.op == "or" else (E,))]:
        if x.op in ("le", "lt"):
            ln = linear(x.a[0], n)
            if ln and is_num(ln[1]) != 0:
                return CNT, None, lt(num(0, ln[1].s), ln[1])
    raise Unsupported("no argument that the loop terminates")


def upper(x, n):
    """x  <=>  n < L"""
    if x.op == "le" and x.a[0].s == "I":
        ln = linear(x.a[0], n)
        if ln:
            a, s = ln
            k = is_num(s)
            if k is not None and k > 0:
                return add(idiv(neg(a), num(k)), num(1))
    if x.op == "not" and x.a[0].op == "eq" and x.a[0].a[0].s == "I":
        ln = linear(x.a[0].a[0], n)
        if ln and abs(is_num(ln[1]) or 0) == 1:
            a, s = ln
            return neg(a) if is_num(s) == 1 else a
    return None
