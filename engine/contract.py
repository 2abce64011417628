"""Contracts: one specification function per method, used both to verify its body and to describe it to its callers."""
import terms as t_
from terms import *
from values import *
from prover import QFact
import cexec
from cexec import State, Ex, merge


class Ctx:
    """what a specification function talks to"""
    def __init__(self, contract, ex, mode, pre, post, this, args):
        self.contract, self.ex, self.mode, self.pre, self.post, self.this, self.args = contract, ex, mode, pre, post, this, args
        self.written = []
        self.writes = []
        self.ret = VOID
        self.retspec = None
        self.newfacts = []
        self.raised = []

    # --- reading
    def old(self, lv):
        return self.ex.read(self.pre, lv)

    def arg(self, i):
        v = self.args[i]
        if isinstance(v, Ref):
            return self.ex.read(self.pre, v.lv)
        return v

    def argd(self, i):
        return asD(self.arg(i))

    def ptr(self, i):
        v = self.args[i]
        if not isinstance(v, Ptr):
            raise Unsupported("pointer argument expected")
        return v.lv

    def field(self, lv, *names):
        for n in names:
            lv = lv.f(n)
        return lv

    # --- clauses
    def requires(self, label, formula, vars_=()):
        ex = self.ex
        if self.mode == "pre":
            if vars_:
                ex.qfact(None, vars_, formula)
            else:
                ex.fact(None, formula)
        elif self.mode == "apply":
            ex.oblige("requires", "%s: requires %s" % (self.contract.name, label), self.post, formula)

    def raises(self, what, cond, tags=()):
        """raises exactly when cond (clauses are tried in order)"""
        earlier = or_(*[c for _, c, _ in self.raised])
        cond = and_(cond, not_(earlier))
        self.raised.append((what, cond, tags))
        if self.mode == "apply":
            s = self.post.copy()
            s.assume(cond)
            if not s.dead():
                self.ex.pend.append((s, what))
            self.post.assume(not_(cond))

    def sets(self, lv, value, label=None, tags=()):
        self.written.append(lv)
        label = label or leafn(lv)
        if self.mode == "post":
            cur = self.ex.read(self.post, lv)
            for lab, vs, g in veq_goals(cur, value, label) or [(label, (), TRUE)]:
                self.ex.oblige("ensures", "%s: %s" % (self.contract.name, lab), self.post, g, tags)
        elif self.mode == "apply":
            self.writes.append((lv, value))

    def havoc(self, lv):
        """the location may change; returns the value afterwards"""
        self.written.append(lv)
        if self.mode == "post":
            return self.ex.read(self.post, lv)
        if self.mode == "apply":
            v = self.ex.sym_like(self.contract.name + "." + leafn(lv), self.old(lv))
            self.writes.append((lv, v))
            return v
        return self.old(lv)

    def ensures(self, label, formula, tags=(), vars_=()):
        if self.mode == "post":
            self.ex.oblige("ensures", "%s: %s" % (self.contract.name, label), self.post, formula, tags)
        elif self.mode == "apply":
            self.newfacts.append((vars_, formula))

    def returns(self, value, label="returned value", tags=()):
        if self.mode == "post":
            for lab, vs, g in veq_goals(self.ret, value, label) or [(label, (), TRUE)]:
                self.ex.oblige("ensures", "%s: %s" % (self.contract.name, lab), self.post, g, tags)
        elif self.mode == "apply":
            self.ret = value

    def result(self, like):
        """arbitrary returned value constrained by ensures"""
        if self.mode == "post":
            return self.ret
        if self.mode == "apply":
            v = self.ex.sym_like(self.contract.name + ".result", like)
            self.ret = v
            return v
        return like

    def v(self, name="k"):
        """a fresh universally quantified index"""
        return declare_nonneg(fresh("$" + name, "I"))


def leafn(lv):
    return ".".join([str(b) for a, b in lv.path]) or str(lv.key[0])


class Contract:
    def __init__(self, name, signature, spec, setup, tags=(), throws=None, pure_of=None):
        self.name, self.sig, self.spec, self.setup, self.tags, self.throws = name, signature, spec, setup, tags, throws
        self.frame_tags = None

    def apply(self, ex, st, this, vals):
        if ex.hint is not None and self.name in ex.hint.cuts:
            ex.hint.cuts[self.name](ex, st, this, vals)
        c = Ctx(self, ex, "apply", st.copy(), st, this, vals)
        ex.called.add("contract:" + self.name)
        self.spec(c)
        for lv, v in c.writes:
            ex.write(st, lv, v)
        for vs, f in c.newfacts:
            if vs:
                ex.qfact(st, vs, f)
            else:
                ex.fact(st, f)
        return c.ret

    def verify(self, ex, fn, frame_tag=None, hint=None):
        """generate the obligations of one C++ function body"""
        def run(st, env):
            this, vals = env["this"], env["args"]
            body = [x for x in fn.get("inner", []) if x.get("kind") == "CompoundStmt"]
            parms = [x for x in fn.get("inner", []) if x.get("kind") == "ParmVarDecl"]
            ex.fr = cexec.Frame(next(ex.nfid), this, fn["_tu"])
            ret = ex.run_body(body[0], parms, vals, this, fn["_tu"], st, fn=fn, name=self.name)
            thrown, ex.pend = ex.pend, []
            return [(st, ret)], thrown
        return self.verify_with(ex, run, hint)

    def verify_with(self, ex, run, hint=None, settle=None):
        """obligations of running something that should behave as this contract says.
        run(state, env) -> ([(state, value)], [(state, exception)])"""
        st = State()
        ex.where = self.name
        ex.cur_tags = self.tags
        env = self.setup(ex, st)
        this, vals = env["this"], env["args"]
        pre = st.copy()
        c0 = Ctx(self, ex, "pre", pre, None, this, vals)
        self.spec(c0)
        ex.entry = (pre, this, vals, len(ex.facts), len(ex.qfacts))
        ex.hint = env.get("hint") or hint
        if ex.hint is not None:
            ex.deffacts += ex.hint.lemmas
        ex.pend = []
        rets, thrown = run(st, env)
        rets = [(s, r) for s, r in rets if not s.dead()]
        thrown = [(s, w) for s, w in thrown if not s.dead()]
        ex.pend = []
        ex.hint = None
        ex.where = self.name + " (postcondition)"
        for s, w in thrown:
            k = [x for x in c0.raised if x[0] == w]
            if k:
                ex.oblige("throws", "%s raises %s only when it should" % (self.name, w), s, or_(*[x[1] for x in k]), k[0][2])
            else:
                ex.oblige("throws", "%s does not raise %s" % (self.name, w), s, FALSE, ("C14",))
        for s, _ in rets:
            for w, cond, tags in c0.raised:
                ex.oblige("throws", "%s raises %s whenever it should" % (self.name, w), s, not_(cond), tags)
        if not rets:
            ex.oblige("ensures", "%s returns" % self.name, State((), ()), FALSE)
            return c0
        for s, r in rets:
            if settle:
                this, r = settle(s, env, r)
            if isinstance(r, Ref):
                r = ex.read(s, r.lv)
            self.check_post(ex, pre, s, r, this, vals)

    def check_post(self, ex, pre, st, ret, this, vals):
        c1 = Ctx(self, ex, "post", pre, st, this, vals)
        c1.ret = ret
        self.spec(c1)
        # frame
        L0 = ex.leaves({k: v for k, v in pre.mem.items() if k[0] not in ("v", "tmp")})
        L1 = ex.leaves({k: v for k, v in st.mem.items()})
        for leaf, v in L0.items():
            lv = LV(leaf[0], tuple(("f", p) for p in leaf[1]))
            if any(w.key == lv.key and lv.path[:len(w.path)] == w.path for w in c1.written):
                continue
            if leaf not in L1:
                ex.oblige("frame", "%s does not destroy %s" % (self.name, leafn(lv)), st, FALSE, self.ftags(lv))
                continue
            if not identical(L1[leaf], v):
                for lab, vs, g in veq_goals(L1[leaf], v, leafn(lv)):
                    ex.oblige("frame", "%s leaves %s unchanged" % (self.name, lab), st, g, self.ftags(lv))
            else:
                ex.oblige("frame", "%s leaves %s unchanged" % (self.name, leafn(lv)), st, TRUE, self.ftags(lv))
        return c1

    def ftags(self, lv):
        if self.frame_tags:
            return self.frame_tags(lv)
        return ("C16",)
