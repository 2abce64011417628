"""drive2.py UNIT...: generate and discharge the obligations of units (development)."""
import sys, time
sys.setrecursionlimit(20000)
import units as U, prover
def main(names, v=False):
    reg, src = U.registry(), U.Source()
    for n in (names or reg):
        u = reg[n](src)
        if u.error:
            print("ERROR", n, u.error)
        t, bad, mx = time.time(), 0, 0
        for o in u.obls:
            t2 = time.time()
            ok, how = prover.prove(list(o.facts) + list(o.pc), o.qfacts, o.goal)
            if not ok and o.more: ok, how = prover.prove(o.facts + [f for f in o.more if not hasattr(f, "vars")] + list(o.pc), o.qfacts + [f for f in o.more if hasattr(f, "vars")], o.goal)
            mx = max(mx, time.time() - t2)
            if not ok:
                bad += 1
                print("  FAIL", o.kind, o.label, "|", o.where, "|", how[:150])
                if v:
                    print("     goal", o.goal, "\n     pc", o.pc)
        print("%-32s obls %d failed %d exec %.1f prove %.1f max %.1f calls %s" % (n, len(u.obls), bad, u.exec_s, time.time() - t, mx, sorted(u.calls)), flush=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    v = bool(a) and a[0] == "v"
    main(a[1:] if v else a, v)
