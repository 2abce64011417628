"""The Python names of the C++ classes, read from the pybind11 modules' AST (clang) on every run."""
import json, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from castload import REPO, FLAGS
from values import Unsupported


def _dump(mod):
    src = "%s/sacf/%s/%s_bindings.cpp" % (REPO, mod, mod)
    p = subprocess.run(FLAGS + ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=pybind11_init_" + mod, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError("clang rejects %s: %s" % (src, p.stderr[-1500:]))
    t, pos, d = p.stdout, 0, json.JSONDecoder()
    out = []
    while True:
        pos = t.find("{", pos)
        if pos < 0:
            return out
        o, pos = d.raw_decode(t, pos)
        out.append(o)


def peel(n):
    while n.get("kind") in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ParenExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr") and n.get("inner"):
        n = n["inner"][0]
    if n.get("kind") == "CXXConstructExpr" and len(n.get("inner", [])) == 1:
        return peel(n["inner"][0])
    return n


def targs(q):
    """template arguments of the last <...> of a type"""
    i = q.find("<")
    if i < 0:
        return []
    s, out, d, cur = q[i + 1:q.rindex(">")], [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


class Class:
    def __init__(self, name, cpp, mod):
        self.name, self.cpp, self.mod = name, cpp, mod
        self.inits, self.methods, self.props, self.fields = [], {}, {}, {}


def target(n):
    """what a bound callable refers to"""
    n = peel(n)
    q = n.get("type", {}).get("qualType", "")
    if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
        r = peel(n["inner"][0])
        d = r.get("referencedDecl", {})
        cls = re.search(r"\((\w+)::\*", q) or re.match(r".*\b(\w+)::\*", q)
        return {"kind": "member", "cls": cls.group(1) if cls else None, "name": d.get("name"), "type": d.get("type", {}).get("qualType", "")}
    if n.get("kind") == "DeclRefExpr":
        d = n["referencedDecl"]
        return {"kind": "function", "cls": None, "name": d.get("name"), "type": d.get("type", {}).get("qualType", "")}
    if n.get("kind") == "LambdaExpr":
        return {"kind": "lambda", "node": n}
    if q.endswith("*") or n.get("kind") == "CXXNullPtrLiteralExpr":
        return {"kind": "null"}
    raise Unsupported("binding of " + str(n.get("kind")))


def string(n):
    n = peel(n)
    if n.get("kind") != "StringLiteral":
        raise Unsupported("name of a binding")
    return json.loads(n["value"])


class Bindings:
    def __init__(self):
        self.classes, self.exceptions, self.errors = {}, {}, []
        with ThreadPoolExecutor(2) as ex:
            for mod, objs in zip(("correlator", "datastructure"), ex.map(_dump, ("correlator", "datastructure"))):
                for o in objs:
                    for c in o.get("inner", []):
                        if c.get("kind") == "CompoundStmt":
                            for s in c.get("inner", []):
                                try:
                                    self.statement(s, mod)
                                except Unsupported as e:
                                    self.errors.append(str(e))

    def statement(self, s, mod):
        if s.get("kind") == "DeclStmt":
            for d in s.get("inner", []):
                init = [c for c in d.get("inner", []) if c.get("kind")]
                if d.get("kind") == "VarDecl" and init:
                    r = self.chain(init[-1], mod)
                    if r is not None:
                        self.vars = getattr(self, "vars", {})
                        self.vars[d["id"]] = r
            return
        self.chain(s, mod)

    def chain(self, n, mod):
        n = peel(n)
        k = n.get("kind")
        if k == "CXXMemberCallExpr":
            me = n["inner"][0]
            c = self.chain(me["inner"][0], mod)
            if c is None:
                return None
            self.define(c, me["name"], n["inner"][1:])
            return c
        if k in ("CXXTemporaryObjectExpr", "CXXConstructExpr"):
            q = n["type"].get("desugaredQualType") or n["type"]["qualType"]
            if "class_<" in q:
                a = targs(q)
                name = string(n["inner"][1])
                c = Class(name, a[0], mod)
                c.bases = a[1:]
                self.classes[name] = c
                return c
            return None
        if k == "DeclRefExpr":
            return getattr(self, "vars", {}).get(n["referencedDecl"]["id"])
        if k == "CallExpr":
            f = peel(n["inner"][0])
            if f.get("referencedDecl", {}).get("name") == "register_exception":
                q = n["type"].get("desugaredQualType") or n["type"]["qualType"]
                self.exceptions[targs(q)[0]] = string(n["inner"][2])
            return None
        return None

    def define(self, c, what, args):
        if what == "def":
            a0 = peel(args[0])
            q = a0.get("type", {}).get("desugaredQualType") or a0.get("type", {}).get("qualType", "")
            extra = [(peel(x).get("type", {}).get("desugaredQualType") or peel(x).get("type", {}).get("qualType", "")) for x in args[1:]]
            if "initimpl" in q:
                if "constructor<" not in q:
                    c.inits.append({"args": None, "keep": [], "node": a0})
                    return
                keep = [tuple(int(y) for y in re.findall(r"\d+", x.split("keep_alive")[1])[:2]) for x in extra if "keep_alive<" in x]
                c.inits.append({"args": targs(q), "keep": keep})
                return
            c.methods.setdefault(string(args[0]), []).append(target(args[1]))
        elif what == "def_static":
            c.methods.setdefault(string(args[0]), []).append(dict(target(args[1]), static=True))
        elif what == "def_property":
            c.props[string(args[0])] = (target(args[1]), target(args[2]))
        elif what == "def_property_readonly":
            c.props[string(args[0])] = (target(args[1]), None)
        elif what in ("def_readonly", "def_readwrite"):
            t = target(args[1])
            c.fields[string(args[0])] = (t["name"], what == "def_readwrite")
        else:
            raise Unsupported("binding directive " + what)


if __name__ == "__main__":
    import time
    t = time.time()
    b = Bindings()
    for c in b.classes.values():
        print(c.name, c.cpp, c.inits, {k: [(x["kind"], x.get("name")) for x in v] for k, v in c.methods.items()}, {k: [x and (x["kind"], x.get("name")) for x in v] for k, v in c.props.items()}, c.fields)
    print(b.exceptions, b.errors, time.time() - t)
