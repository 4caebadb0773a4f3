from units import *
import draw

def go():
    ck = Check("P11", "the real coordinator and worker code drives probe workers through many phases under delays, yields and spurious wake-ups injected at every lock, wait, signal, thread start; "
               "every worker has to run each phase exactly once, between wake-up and completion, on the task it was woken for, and to be joined at the end; and every engine is run many times "
               "under the same delays and has to end; distinct = distinct cases")
    run_units(ck, "u_phases", ck.scale(4800, 40000), env=dict(U_MODE="phases"), wrap=True, more=("perturb.cpp",))
    # the engines themselves
    rng = ck.rng
    binary = build("engines")
    jobs = []
    engs = [e for e in draw.ALL if not e.startswith("omp")]
    for c in range(ck.scale(900, 9000)):
        eng = engs[c % len(engs)]
        r, X, kind = draw.run(rng, c, eng, small=True)
        r["threads"] = int(rng.choice([2, 3, 5, 8, 13, 16])); r["repeat"] = 3; r["keep"] = 1
        jobs.append(Job([r], timeout=40, tag="%s %s %s" % (eng, r["init"], r.get("src", "mem")), perturb="%d:%d:%d" % (rng.integers(1, 10**6), rng.choice([1, 2, 2]), rng.integers(0, 5))))
    run_jobs(binary, jobs, par=2*NCPU)
    ends = {}; delays = 0
    for j in jobs:
        eng = j.runs[0]["engine"]
        if not ck.check_job(j, eng): continue
        for r in j.res:
            ck.case((j.tag, r.digest()), True)
            delays += r.delays; ends[eng] = ends.get(eng, 0) + 1
            if r.error: ck.violation(eng + " error", "%s: %s" % (j.tag, r.error), job=j)
            elif r.created != r.joined: ck.violation(eng + " join", "%s: %d workers were started, %d waited for at the end" % (j.tag, r.created, r.joined), job=j)
    ck.cov.update(engine_runs=ends, engine_delays=delays)
    ck.finish()

if __name__ == "__main__": main(go)
