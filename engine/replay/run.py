"""Drives worker.py: build, run, interpret crashes.  run_property() is used by check.py."""
import json, os, shutil, signal, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

HERE = os.path.dirname(os.path.abspath(__file__))


class Session:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="sacf_replay_")
        self.error = None
        try:
            B.build(self.dir)
        except B.BuildError as e:
            self.error = str(e)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def env(self):
        e = dict(os.environ)
        e.update(PYTHONPATH=self.dir, PYTHONDONTWRITEBYTECODE="1", MALLOC_PERTURB_="165", SACF_SCRATCH=self.dir, PYTHONHASHSEED="0")
        return e

    def spawn(self, prop, seed, budget, part="0/1"):
        tag = "%s_%d" % (prop, seed)
        out, cur = os.path.join(self.dir, tag + ".out"), os.path.join(self.dir, tag + ".cur")
        for f in (out, cur):
            if os.path.exists(f):
                os.unlink(f)
        err = open(os.path.join(self.dir, tag + ".err"), "w+")
        p = subprocess.Popen([B.PYPY, os.path.join(HERE, "worker.py"), prop, str(seed), str(budget), out, cur],
                             env=dict(self.env(), SACF_PART=part), cwd=self.dir, stdout=err, stderr=subprocess.STDOUT)
        return p, out, cur, err, prop

    def collect(self, h, timeout):
        p, out, cur, err, prop = h
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -signal.SIGALRM
        err.seek(0)
        text = err.read()[-1500:]
        err.close()
        if rc == 0 and os.path.exists(out):
            return json.load(open(out))
        if not os.path.exists(cur):
            return {"evaluations": 0, "distinct": 0, "directed": 0, "samples": [], "wall": 0,
                    "fails": [{"property": prop, "case": None, "message": "the package cannot be imported (exit %d): %s" % (rc, text)}]}
        try:
            case = json.load(open(cur))
        except ValueError:
            case = None
        what = ("the call does not return within 60 s" if rc == -signal.SIGALRM else
                "the process dies with signal %d (%s)" % (-rc, text.strip().replace("\n", " ")[-400:]) if rc < 0 else "the process exits with %d (%s)" % (rc, text[-400:]))
        return {"evaluations": 1, "distinct": 1, "directed": 0, "samples": [json.dumps(case)[:400]], "wall": 0,
                "fails": [{"property": prop, "case": case, "message": what}]}

    def run_property(self, prop, seed, budget, procs=1):
        hs = [self.spawn(prop, seed + 1000 * i, budget, "%d/%d" % (i, procs)) for i in range(procs)]
        rs = [self.collect(h, budget + 400) for h in hs]
        tot = {"evaluations": sum(r["evaluations"] for r in rs), "distinct": sum(r["distinct"] for r in rs), "directed": sum(r["directed"] for r in rs),
               "samples": rs[0]["samples"], "wall": max(r["wall"] for r in rs), "fails": [f for r in rs for f in r["fails"]]}
        return tot


if __name__ == "__main__":
    s = Session()
    if s.error:
        print("BUILD FAILED", s.error)
        sys.exit(2)
    try:
        if sys.argv[1] == "--replay":
            sys.exit(subprocess.call([B.PYPY, os.path.join(HERE, "worker.py"), "--replay", os.path.abspath(sys.argv[2])], env=s.env(), cwd=s.dir))
        props = sys.argv[2].split(",") if len(sys.argv) > 2 else ["C%02d" % i for i in range(1, 18)]
        for p in props:
            r = s.run_property(p, int(os.environ.get("VERIF_SEED", "1")), float(sys.argv[1]), int(os.environ.get("PROCS", "1")))
            print(p, r["evaluations"], r["distinct"], r["directed"], "%.1fs" % r["wall"], [(f["message"], json.dumps(f["case"])[:600]) for f in r["fails"]])
    finally:
        s.close()
