"""check.py PROPERTY: decides one property of the current /repo tree.

1. every function the property depends on is translated from the current source and its contract's obligations are
   generated and discharged;
2. the executable form of the property runs against a fresh build (replay): it checks what the proofs assume about the
   surroundings, and looks for a concrete input when an obligation is not discharged.

exit 0: held; exit 1 with a VIOLATION line otherwise."""
import atexit, json, os, sys, threading, time, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "replay"))
sys.setrecursionlimit(20000)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
import units as U
import prover
from terms import FALSE, T
from roots import ROOTS
from facts import TRUSTED, ASSUMPTIONS
import run as R

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
PROCS = min(8, os.cpu_count() or 4)

OBLS = []
LATE = "not attempted: the time for proofs ran out"
SLOW = "unknown: no result in time"
T_FIRST, T_RETRY = (1500, 1200) if THOROUGH else (330, 150)


def attempt(o, scale):
    ok, how = prover.prove(list(o.facts) + list(o.pc), o.qfacts, o.goal, timeout=8 * scale)
    if not ok and o.more and scale > 1:
        ok, h = prover.prove(o.facts + [f for f in o.more if isinstance(f, T)] + list(o.pc), o.qfacts + [f for f in o.more if not isinstance(f, T)], o.goal, timeout=8 * scale)
        how = h if ok else how
    return ok, how


def discharge(a):
    i, scale, until = a
    o = OBLS[i]
    t = time.time()
    if t > until:
        return i, False, LATE, 0.0, 0.0, 0
    s0 = dict(prover.STATS)
    try:
        ok, how = U.limited(60 if scale == 1 else 100, attempt, o, scale)
    except U.Slow:
        ok, how = False, SLOW
    except Exception as e:
        ok, how = False, "prover error: %s: %s" % (type(e).__name__, e)
    return i, ok, how, time.time() - t, prover.STATS["z3_time"] - s0["z3_time"], prover.STATS["queries"] - s0["queries"]


def consistent(a):
    """vacuity check: the assumptions of a unit must not prove false"""
    i = a
    o = OBLS[i]
    try:
        ok, how = U.limited(30, lambda: prover.prove(o.facts + [f for f in o.more if isinstance(f, T)] + list(o.pc), o.qfacts + [f for f in o.more if not isinstance(f, T)], FALSE, timeout=1, rounds=2, use_cvc5=False))
    except (Exception, U.Slow):
        ok = False
    return i, ok


def prove_all(scale=1, todo=None, within=1e9):
    until = time.time() + within
    stats = {"z3_s": 0.0, "queries": 0}
    todo = [i for i in (todo if todo is not None else range(len(OBLS))) if OBLS[i].goal.op != "true"]
    for o in OBLS:
        if o.goal.op == "true":
            o.ok, o.how = True, "syntactic"
    # the large ones first
    todo.sort(key=lambda i: -len(OBLS[i].facts) - 3 * len(OBLS[i].qfacts))
    if todo:
        with mp.get_context("fork").Pool(PROCS) as pool:
            for i, ok, how, t, z, q in pool.imap_unordered(discharge, [(i, scale, until) for i in todo], 1):
                o = OBLS[i]
                if how is not LATE and how != LATE or not o.how:
                    o.ok, o.how, o.time = ok, how, t
                stats["z3_s"] += z
                stats["queries"] += q
    return stats


def main(prop):
    t0 = time.time()
    budget = float(os.environ.get("SACF_REPLAY_BUDGET", "60" if THOROUGH else "6"))
    box = {}

    def builder():
        box["s"] = R.Session()
    th = threading.Thread(target=builder)
    th.start()

    # ---- obligations
    reg = U.registry()
    src = U.Source()
    units, todo = {}, list(ROOTS[prop])
    fatal = None
    try:
        while todo:
            n = todo.pop(0)
            if n in units or n not in reg:
                continue
            units[n] = reg[n](src)
            todo += sorted(units[n].calls)
    except Exception as e:
        fatal = "%s: %s" % (type(e).__name__, e)
    owner = []
    for n, u in units.items():
        for o in u.obls:
            OBLS.append(o)
            owner.append(n)
    th.join()      # the build uses all cores for a moment; forking needs a single thread
    sess = box["s"]
    atexit.register(sess.close)
    # ---- replay: the executable property on the current build
    rep = {"evaluations": 0, "distinct": 0, "directed": 0, "samples": [], "fails": [], "wall": 0}
    builderr = sess.error
    if not builderr:
        rep = sess.run_property(prop, SEED, budget, PROCS)
    # a concrete failing input decides the verdict: the proofs then only name the obligations it breaks
    stats = prove_all(1, None, 100 if rep["fails"] or builderr else T_FIRST)
    failed = [i for i, o in enumerate(OBLS) if not o.ok]
    if failed and not rep["fails"] and not builderr:
        s2 = prove_all(4, [i for i in failed if OBLS[i].how != LATE], T_RETRY)
        for k in stats:
            stats[k] += s2[k]
        failed = [i for i in failed if not OBLS[i].ok]
    vac = []
    last = {}
    for i, o in enumerate(OBLS):
        if o.goal.op != "true" and (o.facts or o.qfacts) and not o.goal.op == "false":
            last[owner[i]] = i
    if last and not rep["fails"]:
        with mp.get_context("fork").Pool(PROCS) as pool:
            vac = [owner[i] for i, bad in pool.imap_unordered(consistent, list(last.values()), 1) if bad]
    t_proof = time.time() - t0

    direct = [i for i in failed if prop in OBLS[i].tags and OBLS[i].kind not in ("loop", "valid")]
    unreached = {n: u.error for n, u in units.items() if u.error}
    for i in failed:
        if OBLS[i].kind == "loop":
            unreached.setdefault(owner[i], "the loop has no closed form that can be proved: " + OBLS[i].label)
        elif OBLS[i].kind == "valid":
            unreached.setdefault(owner[i], "not shown: " + OBLS[i].label)
        elif OBLS[i].how in (LATE, SLOW):
            unreached.setdefault(owner[i], OBLS[i].how)
    # a function without a proved loop summary has no decided obligations of its own
    direct = [i for i in direct if owner[i] not in unreached]

    # ---- a longer search where something is not proved
    try:
        if not builderr and not rep["fails"] and (failed or unreached):
            more = sess.run_property(prop, SEED + 500000, max(budget, 60 if not THOROUGH else 200), PROCS)
            for k in ("evaluations", "distinct", "directed", "wall"):
                rep[k] += more[k]
            rep["fails"] = more["fails"]
    finally:
        sess.close()
    wall = time.time() - t0

    # ---- verdict
    art = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(art, exist_ok=True)
    lines, viol = [], 0
    if builderr:
        p = os.path.join(art, prop + "_build.txt")
        open(p, "w").write(builderr)
        print("the sources do not build: " + builderr[-800:])
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        viol += 1
    elif rep["fails"]:
        f = rep["fails"][0]
        p = os.path.join(art, prop + ".json")
        json.dump({"property": prop, "case": f["case"], "message": f["message"],
                   "failed_obligations": [ob_text(i, owner) for i in failed][:20], "untranslated": unreached,
                   "replay_cmd": "cd %s && python3 engine/replay/run.py --replay %s" % (VERIF, p)}, open(p, "w"), indent=1)
        print("%s: %s" % (prop, f["message"]))
        for i in failed[:10]:
            print("obligation not discharged: " + ob_text(i, owner)["obligation"])
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        viol += len(rep["fails"])
    elif direct:
        cex = function_level(src, units, owner, direct)
        p = os.path.join(art, prop + "_obligation.json")
        json.dump({"property": prop, "failed_obligations": [ob_text(i, owner, True) for i in direct][:20], "other_failed": [ob_text(i, owner) for i in failed if i not in direct][:20],
                   "untranslated": unreached, "function_level_counterexample": cex, "searched": "%d inputs with the executable contract, none failed" % rep["evaluations"]}, open(p, "w"), indent=1)
        for i in direct[:10]:
            print("obligation not discharged: " + ob_text(i, owner)["obligation"])
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        viol += len(direct)

    cross = cross_check([n for n, u in units.items() if u.kind == "C++ function" and n not in unreached]) if THOROUGH and not builderr else None

    # ---- evidence
    n, d = len(OBLS), len([o for o in OBLS if o.ok])
    back = {}
    for o in OBLS:
        if o.ok:
            back[o.how.split(" by")[0]] = back.get(o.how.split(" by")[0], 0) + 1
    funcs = []
    for nme, u in units.items():
        k = [i for i in range(n) if owner[i] == nme]
        funcs.append({"unit": nme, "kind": u.kind, "source": u.anchor, "obligations": len(k), "discharged": len([i for i in k if OBLS[i].ok]),
                      "of_this_property": len([i for i in k if prop in OBLS[i].tags]),
                      "status": "proved" if nme not in unreached and all(OBLS[i].ok for i in k) else ("bounded (replay only): " + unreached[nme]) if nme in unreached else "not proved"})
    proved_all = not unreached and d == n and not fatal and n > 0 and not vac
    cov = {"obligations": n, "discharged": d,
           "checker_cmd": "python3-vt engine/check.py %s" % prop,
           "trusted_base": TRUSTED,
           "functions_under_contract": funcs,
           "of_this_property": len([o for o in OBLS if prop in o.tags]),
           "by_kind": count(o.kind for o in OBLS), "back_ends": back, "solver_time_s": round(stats["z3_s"], 2), "solver_queries": stats["queries"],
           "not_discharged": [ob_text(i, owner) for i in failed][:40],
           "bounded_stand_ins": ([{"unit": a, "reason": b} for a, b in unreached.items()]
                                 + BOUNDED.get(prop, []) + ([{"unit": "all", "reason": fatal}] if fatal else [])),
           "all_proved": proved_all,
           "translation_cross_check": cross or "run in the thorough tier: symbolic results of every function evaluated in random states against the compiled function",
           "vacuity": {"checked": len(last) if not rep["fails"] else 0, "contradictory_assumptions": vac},
           "replay": {"evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct"], "directed": rep["directed"], "seconds": round(rep["wall"], 1),
                      "rule": "executable form of the property (oracle) on generated cases; bounds as in engine/replay/worker.py: labelled bounded, never counted as proved",
                      "samples": rep["samples"][:3]}}
    ev = {"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": LEVEL.get(prop, "proof"), "coverage": cov,
          "assumptions": ASSUMPTIONS + EXTRA.get(prop, []), "wall_s": round(time.time() - t0, 1), "violations": viol}
    if ev["level"] == "exploration":
        cov.update({"evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct"], "rule": cov["replay"]["rule"], "samples": rep["samples"][:3] or ["none"]})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d of %d obligations discharged over %d units (%s), %d replayed cases, %.0f s (proof %.0f s)" % (
        prop, d, n, len(units), ", ".join("%s %d" % kv for kv in sorted(back.items())), rep["evaluations"], time.time() - t0, t_proof))
    for a, b in unreached.items():
        print("bounded only: %s (%s)" % (a, b))
    if vac:
        print("contradictory assumptions in " + ", ".join(vac))
    if fatal:
        print("the sources could not be read: " + fatal)
    for l in lines:
        print(l)
    return 1 if viol else 0


from facts import BOUNDED, EXTRA, LEVEL


def cross_check(names):
    """the translation against the compiled functions in random states (difftest.py); reported, never an alarm"""
    import subprocess
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, "difftest.py"), "cases", "30", "seed", str(SEED)] + names,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
        out = p.stdout.strip().split("\n")
        return {"functions": len(names), "result": out[-1][:300], "differences": [l.strip()[:400] for l in out if "DIFFERS" in l][:5]}
    except Exception as e:
        return {"functions": len(names), "result": "not run: %s" % type(e).__name__}


def function_level(src, units, owner, direct):
    """a concrete entry state of a function in which a failed obligation is false, with what the compiled function does there"""
    try:
        import difftest
        import contracts as K
        for n in dict.fromkeys(owner[i] for i in direct):
            c = [c for c in K.CONTRACTS.values() if c.name == n]
            if c and units[n].ex is not None:
                r = difftest.counterexample(src.prog, c[0], src.sigs[c[0].sig], units[n].ex, [OBLS[i] for i in direct if owner[i] == n])
                if r:
                    return r
    except Exception as e:
        return "search failed: %s: %s" % (type(e).__name__, e)
    return None


def count(it):
    c = {}
    for x in it:
        c[x] = c.get(x, 0) + 1
    return c


def ob_text(i, owner, full=False):
    o = OBLS[i]
    r = {"obligation": "%s [%s] %s" % (o.where or owner[i], o.kind, o.label), "unit": owner[i], "verifier": str(o.how)[:600]}
    if full:
        r["goal"] = str(o.goal)[:2000]
        r["path"] = [str(x)[:400] for x in o.pc][:12]
    return r


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except KeyboardInterrupt:
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)
