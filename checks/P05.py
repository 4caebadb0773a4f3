from knorv import *
import gen, oracle, draw

def go():
    ck = Check("P05", "each case repeats one run in fresh processes on a quiet machine, under injected delays, yields and spurious wake-ups (different seeds "
               "and placements), and after other runs in the same process; all results have to be bit-identical; distinct = distinct runs repeated")
    rng = ck.rng
    binary = build("engines")
    jobs, groups = [], []
    for c in range(ck.scale(1600, 6000)):
        eng = draw.ALL[c % len(draw.ALL)]
        r, X, kind = draw.run(rng, c // len(draw.ALL), eng, heavy=c % 5 == 0)
        if r["n"] < 3000 and rng.random() < .6 and eng not in ("omp", "ompmin"): r["threads"] = int(rng.choice([3, 6, 8, 12, 16]))
        if c % 24 < 3:      # many splits decided together, most of them reverted
            eng = ("xmeans", "gmeans", "hclust")[c % 24]
            r, X, kind = draw.run(rng, 99, eng, small=True)
            kind, d = "cascade", int(rng.integers(2, 8)); X = gen.cascade(rng, d)
            r.pop("centers", 0); r.pop("ncent", 0)
            r.update(data=X, n=len(X), d=d, k=int(rng.choice([16, 32, 64])), minsz=2, iters=int(rng.integers(2, 8)), init="forgy", threads=int(rng.choice([1, 3, 6, 8])))
        others = []
        for _ in range(2):
            o, _, _ = draw.run(rng, 0, str(rng.choice(draw.ALL + ["omp", "ompmin"]*2)) if rng.random() < .5 else eng, small=True)
            others.append(o)
        tag = "%s %s %s %s" % (eng, r["init"], r["dist"], kind)
        g = [Job([r], tag=tag, meta=dict(pick=[0], how="fresh")),
             Job([r], tag=tag, meta=dict(pick=[0], how="delays"), perturb="%d:2:%d" % (rng.integers(1, 10**6), rng.integers(0, 5))),
             Job([r], tag=tag, meta=dict(pick=[0], how="yields"), perturb="%d:1:%d" % (rng.integers(1, 10**6), rng.integers(0, 5))),
             Job([others[0], r, others[1], r, r], tag=tag, meta=dict(pick=[1, 3, 4], how="after other runs"))]
        if c % 24 < 3:
            for t in range(5): g.append(Job([r, r], tag=tag, meta=dict(pick=[0, 1], how="delays"), perturb="%d:2:2" % rng.integers(1, 10**6)))
        if c % 4 == 0 and r["n"] < 3000: g.append(Job([r], tag=tag, meta=dict(pick=[0], how="long delays"), perturb="%d:3:%d" % (rng.integers(1, 10**6), rng.integers(0, 5))))
        groups.append((eng, g)); jobs += g
    order = [jobs[i] for i in rng.permutation(len(jobs))]
    run_jobs(binary, order, par=2*NCPU)
    comp = 0; delays = 0; hows = {}
    for eng, g in groups:
        if not all([ck.check_job(j, "%s %s" % (eng, j.meta["how"])) for j in g]): continue
        r0 = g[0].res[0]
        ck.case((g[0].tag, r0.digest()), True, dict(case=g[0].tag, n=g[0].runs[0]["n"], k=g[0].runs[0]["k"], threads=g[0].runs[0]["threads"], digest=r0.digest()))
        for j in g:
            for i in j.meta["pick"]:
                r = j.res[i]; comp += 1; hows[j.meta["how"]] = hows.get(j.meta["how"], 0) + 1; delays += r.delays if "perturb" in j.opts else 0
                if not r.same(r0):
                    dc = (r.cents != r0.cents).sum() if len(r.cents) == len(r0.cents) else -1
                    da = (r.a != r0.a).sum() if len(r.a) == len(r0.a) else -1
                    ck.violation("%s differs %s" % (eng, j.meta["how"]), "%s: %s: %d assignments and %d centroid values differ, %d and %d iterations, k %d and %d %s" % (
                        j.tag, j.meta["how"], da, dc, r.iters, r0.iters, r.k, r0.k, r.error or r0.error), job=j); break
    ck.cov.update(comparisons=comp, by_kind=hows, delays_injected=delays)
    ck.finish()

if __name__ == "__main__": main(go)
