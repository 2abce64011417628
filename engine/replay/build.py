"""Builds /repo's two extension modules from the current working tree into a scratch package.

The sources are compiled in place (nothing in /repo is written); libstdc++ debug mode makes every out-of-range
vector access, invalid iterator and empty back() abort, so that it is seen as a crash of the worker."""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SACF_REPO", "/repo")
PYPY = "/opt/venv-pypy/bin/python"
SUFFIX = ".pypy39-pp73-x86_64-linux-gnu.so"
FLAGS = ["-std=c++14", "-O1", "-fPIC", "-fvisibility=hidden", "-D_GLIBCXX_DEBUG", "-w",
         "-I" + REPO + "/sacf/include", "-I" + REPO + "/sacf/include/pybind11/include",
         "-I/usr/include/pypy3.9", "-include", "/opt/vp/compat/pypy_compat.h"]


class BuildError(Exception):
    pass


def build(dest):
    """dest/sacf becomes an importable package; returns dest."""
    pkg = os.path.join(dest, "sacf")
    os.makedirs(pkg, exist_ok=True)
    for f in glob.glob(REPO + "/sacf/*.py"):
        shutil.copy(f, pkg)
    jobs = []
    mods = {}
    for mod in ("datastructure", "correlator"):
        for src in sorted(glob.glob("%s/sacf/%s/*.cpp" % (REPO, mod))):
            obj = os.path.join(dest, mod + "_" + os.path.basename(src) + ".o")
            jobs.append(["g++"] + FLAGS + ["-c", src, "-o", obj])
            mods.setdefault(mod, []).append(obj)

    def run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError(" ".join(cmd) + "\n" + p.stdout[-3000:])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    for mod, objs in mods.items():
        run(["g++", "-shared", "-o", os.path.join(pkg, mod + SUFFIX)] + objs)
        for o in objs:
            os.unlink(o)
    return dest


if __name__ == "__main__":
    build(sys.argv[1])
