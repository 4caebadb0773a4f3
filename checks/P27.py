from knorv import *
import gen, oracle, draw

def go():
    ck = Check("P27", "each case repeats one run many times in one process and compares before and after: the caller's data and centroids byte by byte, threads created, joined and ended, open "
               "file descriptors, live objects, allocated blocks and node memory (exact counts), and mapped pages (growth); then every algorithm once more with the leak detector of AddressSanitizer; "
               "distinct = distinct (algorithm, source, parameters) repeated")
    rng = ck.rng
    binary = build("engines")
    engs = draw.ALL + ["kmeans", "prune"]
    jobs = []
    for c in range(ck.scale(420, 3600)):
        eng = engs[c % len(engs)]
        r, X, kind = draw.run(rng, c // len(engs), eng, heavy=c % 9 == 0)
        if c % 5 == 0 and eng in ("kmeans", "prune"): r["src"] = "numa"
        r["iters"] = min(r["iters"], 4)
        R = 24 if r["n"] < 3000 and r["k"] < 100 else 10
        jobs.append(Job([dict(r, repeat=R)], tag="%s %s %s %s %s" % (eng, r["init"], r["dist"], kind, r.get("src", "mem")), meta=dict(eng=eng, R=R), timeout=180))
    run_jobs(binary, jobs)
    runs = thr = 0
    for j in jobs:
        eng, R, q = j.meta["eng"], j.meta["R"], j.runs[0]
        if not ck.check_job(j, eng): continue
        def alarm(what, msg): ck.violation("%s %s %s" % (eng, q.get("src", "mem"), what), "%s n=%d d=%d k=%d threads=%d: %s" % (j.tag, q["n"], q["d"], q["k"], q["threads"], msg), job=j)
        runs += len(j.res); thr += sum(r.created for r in j.res)
        ck.case((j.tag, q["n"], q["k"], q["threads"]), True, dict(case=j.tag, n=q["n"], repeats=R, threads_created=j.res[0].created, left=[int(j.res[-1].left), int(j.res[-1].left_blocks), int(j.res[-1].left_numa)], pages=[j.res[2].vm, j.res[-1].vm]))
        bad = [r for r in j.res if r.error]
        if bad: alarm("error", bad[0].error); continue
        if any(r.modified for r in j.res) and not (eng == "skmeans" and q.get("src") != "file"): alarm("data", "the caller's data was modified"); continue
        if any(r.cmod for r in j.res): alarm("data", "the caller's centroids were modified"); continue
        w = [i for i, r in enumerate(j.res) if r.created != r.joined or r.threads_after != r.threads_before]
        if w: alarm("threads", "run %d of %d created %d threads and joined %d; %d were left before it and %d after" % (w[0] + 1, R, j.res[w[0]].created, j.res[w[0]].joined, j.res[w[0]].threads_before, j.res[w[0]].threads_after)); continue
        w = [i for i, r in enumerate(j.res) if r.fds_after != r.fds_before]
        if w: alarm("files", "run %d of %d left %d files open" % (w[0] + 1, R, j.res[w[0]].fds_after - j.res[w[0]].fds_before)); continue
        w = [i for i, r in enumerate(j.res) if i >= 2 and (r.left > 0 or r.left_blocks > 0 or r.left_numa > 0)]
        if w:
            x = j.res[w[0]]; alarm("memory", "run %d of %d left %d objects, %d blocks and %d pieces of node memory allocated (%d such runs)" % (w[0] + 1, R, x.left, x.left_blocks, x.left_numa, len(w))); continue
        w = [i for i, r in enumerate(j.res) if r.left_numa < 0 or r.left_blocks < 0]
        if w: alarm("memory", "run %d of %d freed memory that is not its own: %d, %d" % (w[0] + 1, R, j.res[w[0]].left_blocks, j.res[w[0]].left_numa)); continue
        v = np.array([r.vm for r in j.res])
        sv = np.diff(v[3:])
        if (sv > 0).mean() > .8: alarm("memory", "the mapped memory grows with every run: %s pages" % [int(x) for x in v[3:]]); continue
    # leak detector
    lb = build("engines", "asan")
    jobs = []
    for c in range(ck.scale(140, 1400)):
        eng = engs[c % len(engs)]
        r, X, kind = draw.run(rng, c // len(engs), eng, heavy=False)
        if c % 5 == 0 and eng in ("kmeans", "prune"): r["src"] = "numa"
        r["iters"] = min(r["iters"], 4)
        jobs.append(Job([r, dict(r)], tag="%s %s %s %s %s" % (eng, r["init"], r["dist"], kind, r.get("src", "mem")), meta=dict(eng=eng), timeout=180, exit=1))
    run_jobs(lb, jobs, env={"ASAN_OPTIONS": RUN_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1"), "LSAN_OPTIONS": "exitcode=87:max_leaks=4:suppressions=" + os.path.join(VERIF, "lib", "lsan.supp")})
    leaks = 0
    for j in jobs:
        ck.case(("leak", j.tag, j.runs[0]["n"]), True)
        if "does not work under ptrace" in j.err or "LeakSanitizer has encountered a fatal error" in j.err: ck.skip("the leak detector cannot run here"); continue
        leaks += 1
        if j.how == "exit" and j.code == 87:
            ck.violation("%s leak" % j.meta["eng"], j.tag + ": " + "\n".join(l for l in j.err.splitlines() if re.search(r"leak of|#[0-9]+ .* in knor|SUMMARY", l))[:1500], job=j)
        else: ck.check_job(j, j.meta["eng"] + " leak run")
    ck.cov.update(runs_observed=runs, threads_observed=thr, leak_detector_runs=leaks)
    ck.finish()

if __name__ == "__main__": main(go)
