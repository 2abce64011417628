"""Reads the C++ sources with clang and returns the declarations that come from the repository (all others dropped)."""
import glob, json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SACF_REPO", "/repo")
FLAGS = ["clang++", "-std=c++14", "-I" + REPO + "/sacf/include", "-I" + REPO + "/sacf/include/pybind11/include",
         "-I/usr/include/pypy3.9", "-include", "/opt/vp/compat/pypy_compat.h", "-fsyntax-only", "-w"]
_FILE = re.compile(r'\n    \{\n|"includedFrom": \{\s*"file": "[^"]*"|"file": "([^"]*)"')


def _dump(src):
    p = subprocess.run(FLAGS + ["-Xclang", "-ast-dump=json", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError("clang rejects %s: %s" % (src, p.stderr[-1500:]))
    txt = p.stdout
    starts = []
    cur = None
    for m in _FILE.finditer(txt):
        if m.group(0)[0] == '"' and m.group(1) is None:
            continue
        if m.group(1) is None:
            starts.append([m.start() + 5, cur])
        else:
            cur = m.group(1)
    decls = []
    for n, (pos, f0) in enumerate(starts):
        end = starts[n + 1][0] - 6 if n + 1 < len(starts) else None
        head = txt[pos:pos + 1500]
        loc = re.sub(r'"includedFrom": \{\s*"file": "[^"]*"', "", head.split('"range"')[0])
        fs = re.findall(r'"file": "([^"]*)"', loc)
        f = fs[-1] if fs else f0
        if f and f.startswith(REPO + "/sacf/") and "/pybind11/" not in f:
            dec = json.JSONDecoder()
            obj, _ = dec.raw_decode(txt, pos)
            decls.append((f, obj))
    return decls


class Program:
    def __init__(self, sources=None):
        if sources is None:
            sources = [s for d in ("correlator", "datastructure") for s in sorted(glob.glob("%s/sacf/%s/*.cpp" % (REPO, d))) if not s.endswith("_bindings.cpp")]
        self.sources = sources
        self.ids = {}       # (tu, id) -> decl node
        self.defs = {}      # mangled name -> (tu, node) with a body
        self.classes = {}   # name -> node
        self.globals = {}
        with ThreadPoolExecutor(4) as ex:
            tus = list(ex.map(_dump, sources))
        for tu, decls in enumerate(tus):
            for f, d in decls:
                self.index(tu, d, None, f)

    def index(self, tu, n, cls, f):
        k = n.get("kind")
        if not k:
            return
        if "id" in n:
            self.ids[(tu, n["id"])] = n
        n["_tu"] = tu
        if k == "CXXRecordDecl" and n.get("completeDefinition") and n.get("name"):
            self.classes.setdefault(n["name"], n)
            n["_file"] = f
            cls = n["name"]
        if k in ("CXXMethodDecl", "CXXConstructorDecl", "FunctionDecl", "CXXDestructorDecl"):
            n["_cls"] = cls
            n["_file"] = f
            if any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])) and n.get("mangledName"):
                self.defs.setdefault(n["mangledName"], n)
        if k == "VarDecl" and cls is None:
            self.globals[(tu, n["id"])] = n
        for c in n.get("inner", []):
            self.index(tu, c, cls, f)

    def fields(self, cls):
        return [c for c in self.classes[cls].get("inner", []) if c.get("kind") == "FieldDecl"]

    def cls_of(self, n):
        """class a method belongs to"""
        m = n.get("mangledName", "")
        for name in self.classes:
            if m.startswith("_ZN%d%s" % (len(name), name)) or m.startswith("_ZNK%d%s" % (len(name), name)):
                return name
        return n.get("_cls")

    def find(self, cls, name):
        """all definitions of a method (or free function when cls is None)"""
        out = []
        for m, n in self.defs.items():
            if n.get("name") == name and (self.cls_of(n) == cls):
                out.append(n)
        return out


if __name__ == "__main__":
    import time
    t = time.time()
    p = Program()
    print(time.time() - t, len(p.defs), sorted(p.classes))
    for m, n in sorted(p.defs.items()):
        print(m, p.cls_of(n), n["type"]["qualType"])
