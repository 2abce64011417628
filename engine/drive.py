import sys, time
from castload import Program
from cexec import *
import contracts as K
from contracts import CONTRACTS
import prover
def run(names, verbose=True):
    prog = Program()
    bysig = {sig(prog, fn): fn for fn in prog.defs.values()}
    for s, c in CONTRACTS.items():
        if names and c.name not in names: continue
        fn = bysig.get(s)
        if fn is None:
            print("MISSING", s); continue
        t = time.time()
        ex = Ex(prog, {k: v for k, v in CONTRACTS.items() if k != s})
        try:
            c.verify(ex, fn)
        except Unsupported as e:
            print("UNSUPPORTED", c.name, e); 
            if verbose=='tb':
                import traceback; traceback.print_exc()
            continue
        t1 = time.time() - t
        bad = 0
        for o in ex.obls:
            t2 = time.time()
            ok, how = prover.prove(list(o.facts) + list(o.pc), o.qfacts, o.goal)
            if not ok and o.more: ok, how = prover.prove(o.facts + [f for f in o.more if not hasattr(f, "vars")] + list(o.pc), o.qfacts + [f for f in o.more if hasattr(f, "vars")], o.goal)
            o.time = time.time() - t2
            if not ok:
                bad += 1
                print("  FAIL", o.kind, o.label, o.where, how[:150])
                if verbose == 'v': print("     goal", o.goal, "\n     pc", o.pc)
        if bad or verbose: print("%-30s obls %d failed %d  exec %.1fs prove %.1fs max %.1f" % (c.name, len(ex.obls), bad, t1, time.time() - t - t1, max([o.time for o in ex.obls] or [0])))
if __name__ == "__main__":
    a = sys.argv[1:]
    vb = True
    if a and a[0] in ('v', 'tb'): vb = a.pop(0)
    run(a, vb)
