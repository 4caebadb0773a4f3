from mpi import *
import gen, oracle

# what every tool is documented to run: engine, metric, initialisation, tolerance
DEF = {"knori": ("prune", "eucl", "kmeanspp", -1.0), "mb_knori": ("mb", "eucl", "kmeanspp", -1.0), "kmeanspp": ("kpp", "eucl", "kmeanspp", None),
       "medoids": ("medoid", "taxi", "forgy", -1.0), "skmeans": ("skmeans", "cos", "forgy", -1.0), "fcm": ("fcm", "sqeucl", "forgy", 1e-6),
       "hmeans": ("hclust", "eucl", "forgy", 1e-6), "xmeans": ("xmeans", "eucl", "forgy", 1e-6), "gmeans": ("gmeans", "eucl", "forgy", 1e-6),
       "knord": ("dprune", "eucl", "kmeanspp", -1.0)}
LONG = {"f": "datafn", "n": "nsamples", "m": "dim", "k": "nclust", "T": "num_thread", "i": "iters", "C": "centersfn", "t": "init", "d": "dist",
        "l": "tol", "o": "outdir", "M": "mb_size", "s": {"kmeanspp": "num_starts", "medoids": "srate", "hmeans": "min_clust_size", "xmeans": "min_clust_size", "gmeans": "min_clust_size"},
        "S": "strictness", "z": "fuzzindex", "N": "nnodes"}
HIER = ("hmeans", "xmeans", "gmeans")

def parse(path):
    """The clustering in a cluster_t.yml."""
    d = {}
    for line in open(path):
        key, _, v = line.partition(":")
        if key in d: raise ValueError("%s twice" % key)
        d[key] = json.loads(v.replace("-nan", "NaN").replace("nan", "NaN").replace("inf", "Infinity"))
    return d

def draw_case(rng, i, tool):
    eng, dist, init, tol = DEF[tool]
    n, d = gen.shape(rng); n, d = max(5, min(n, 600)), min(d, 30)
    if i % 37 == 5 and tool not in ("medoids",): n, d = int(rng.integers(8300, 12000)), 2
    if n < 8 and tool in HIER: n = 8
    kind = str(rng.choice(["blobs", "uniform", "aniso", "negative", "unbal", "blobs", "int", "tiny", "huge"]))
    X = gen.cascade(rng, min(d, 8)) if tool in HIER and rng.random() < .5 else gen.dataset(rng, kind, n, d)
    n, d = X.shape
    k = int(rng.choice([2, 4, 5, 8, 16])) if tool in HIER else gen.pick_k(rng, n, 2)
    q = dict(engine=eng, data=X, n=n, d=d, k=k, dist=dist, init=init, src="file")
    if tol is not None: q["tol"] = tol
    o = {}
    dists = {"skmeans": [], "xmeans": [], "gmeans": []}.get(tool, ["eucl", "sqeucl", "cos", "taxi"])
    if d == 1 and dists: dists = ["eucl", "taxi"]
    if dists and (rng.random() < .6 or d == 1 and dist == "cos"): q["dist"] = o["d"] = str(rng.choice(dists))
    th = gen.pick_threads(rng, n) if rng.random() < .8 else None
    if th: o["T"] = th
    q["threads"] = th or len(os.sched_getaffinity(0))      # the documented default
    if tool != "kmeanspp":
        must = tool in HIER + ("fcm", "medoids")
        q["iters"] = 4294967295
        if must or rng.random() < .7: q["iters"] = o["i"] = int(rng.choice([1, 2, 3, 5, 9]))
        if tool == "mb_knori" and "i" not in o: q["iters"] = o["i"] = 7
        if rng.random() < .35: q["tol"] = o["l"] = float(rng.choice([0, .01, .1, .5, 1e-3]))
        if rng.random() < .4 and tool != "medoids":      # which refuses given centroids
            nc = 2 if tool in HIER else k
            q["centers"] = gen.centers(rng, X, nc, "rows" if tool in HIER else str(rng.choice(["rows", "near", "box"]))); q["ncent"] = nc; q["init"] = "none"
            o["C"] = q["centers"]
            if tool in ("knori", "mb_knori", "knord") and rng.random() < .5: o["t"] = str(rng.choice(["forgy", "random", "kmeanspp"]))    # -C has precedence
        elif tool in ("knori", "mb_knori", "knord") and rng.random() < .7:
            q["init"] = o["t"] = str(rng.choice(["forgy", "random", "kmeanspp"]))
            if tool == "knord" and q["init"] == "random": q["init"] = o["t"] = "forgy"
    if tool in ("knori", "knord") and rng.random() < .5: o["P"] = True; q["engine"] = {"knori": "kmeans", "knord": "dkm"}[tool]
    if tool == "knori" and rng.random() < .35:
        o["O"] = True; q["engine"] = {"kmeans": "omp", "prune": "ompmin"}[q["engine"]]; q["src"] = "mem"
        if q["dist"] not in ("eucl", "cos"): q["dist"] = o["d"] = "eucl" if d == 1 or rng.random() < .5 else "cos"
        q["k"] = k = max(2, min(k, n))
        if "centers" in q: q["centers"] = o["C"] = q["centers"][:k]
    if tool == "mb_knori":
        q["batch"] = 100
        if n < 100 or rng.random() < .6: q["batch"] = o["M"] = int(rng.integers(1, n + 1))
    if tool == "kmeanspp":
        q["nstart"] = 10
        if rng.random() < .7: q["nstart"] = o["s"] = int(rng.integers(1, 14))
        q["iters"] = 0
    if tool == "medoids":
        q["src"] = "mem"; q["rate"] = .2
        if rng.random() < .6: q["rate"] = o["s"] = float(rng.choice([.1, .35, .5, 1.0]))
    if tool == "fcm":
        q["fuzz"] = 2
        if rng.random() < .6: q["fuzz"] = o["z"] = int(rng.choice([2, 3, 4]))
        if q["dist"] == "cos": q["iters"] = o["i"] = 1
    if tool in HIER:
        q["minsz"] = 2
        if rng.random() < .6: q["minsz"] = o["s"] = int(rng.choice([1, 2, 3, 5, 10]))
    if tool == "gmeans":
        q["strict"] = 4
        if rng.random() < .7: q["strict"] = o["S"] = int(rng.integers(0, 5))
    if rng.random() < .3: o["N"] = 1
    return q, o, kind

def argv(rng, tool, q, o):
    """The options in random order and forms."""
    name = lambda c: (LONG[c][tool] if isinstance(LONG[c], dict) else "kmax" if c == "k" and tool in ("xmeans", "gmeans") else LONG[c])
    opts = []
    pos = [datafile(q["data"]), str(q["n"]), str(q["d"]), str(q["k"])]
    items = [(c, datafile(v) if isinstance(v, np.ndarray) else v) for c, v in o.items()]
    if tool == "knord":                       # getopt: positional first, short options only
        out = list(pos)
        for c, v in sorted(items, key=lambda _: rng.random()): out += ["-" + c] if v is True else ["-" + c, str(v)]
        return out
    positional = rng.random() < .5 and tool not in ("medoids",)
    if not positional: items += list(zip("fnmk", pos))
    for c, v in sorted(items, key=lambda _: rng.random()):
        if v is True: opts.append(["-" + c] if rng.random() < .5 else ["--" + {"O": "omp", "P": "prune"}[c]])
        elif rng.random() < .5 or tool == "hmeans" and c == "k": opts.append(["-" + c, str(v)])
        elif rng.random() < .5: opts.append(["--" + name(c), str(v)])
        else: opts.append(["--%s=%s" % (name(c), v)])
    flat = [x for p in opts for x in p]
    if positional: return pos + flat
    return flat

def execute(cmd, cwd, out, timeout=90):
    shutil.copytree(os.path.join(REPO, "exec", "python"), os.path.join(cwd, "python"))
    env = dict(os.environ, OMP_NUM_THREADS="3", PATH=PATH, TMPDIR=cwd)
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try: msg, rc = p.communicate(timeout=timeout)[0], p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); sh(["pkill", "-KILL", "-f", cwd]); p.communicate(); return "timeout", "", None
    y = os.path.join(cwd, out, "cluster_t.yml") if out else None
    got = None
    if y and os.path.exists(y):
        try: got = parse(y)
        except Exception as e: got = "unreadable: %s" % e
    left = sorted(f for f in os.listdir(cwd) if f not in ("python", (out or "").split("/")[0]) and not f.startswith("ompi"))
    if left: msg += "\nLEFT " + ",".join(left)
    return rc, msg, got

def go():
    ck = Check("P20", "each case runs one command-line tool on generated data with options drawn at random (short, long and positional forms, any order), parses the file it "
               "writes and compares it with what the library returns in the harness for what these options mean; cases with unusable arguments must fail and write "
               "nothing; distinct = distinct clusterings compared")
    rng = ck.rng
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (lambda: build("engines"), build_tools, build_knord)]
        eng, tools, knord = (f.result() for f in fs)
    cases = []
    per = ck.scale(45, 420)
    for i in range(per*len(TOOLS) + ck.scale(16, 160)):
        tool = TOOLS[i % len(TOOLS)] if i < per*len(TOOLS) else "knord"
        q, o, kind = draw_case(rng, i, tool)
        out = str(rng.choice(["out", "res/deep", "o.d"]))
        o["o"] = out
        a = argv(rng, tool, q, o)
        if tool == "knord":
            np_ = int(rng.choice([1, 2, 3])); cmd = [*MPIRUN, "-n", str(np_), knord] + a
        else: cmd = [tools[tool]] + a
        cases.append(dict(tool=tool, q=q, o=o, cmd=cmd, out=out, kind=kind))
    bads = []
    for i in range(ck.scale(54, 300)):          # arguments that cannot be used
        tool = TOOLS[i % len(TOOLS)]; q, o, kind = draw_case(rng, 0, tool); how = str(rng.choice(["missing", "short", "long", "badinit", "baddist", "nocenters"]))
        if tool == "medoids" and rng.random() < .3: how = "medoids-C"
        if tool not in ("knori", "mb_knori") and how == "badinit" or tool == "kmeanspp" and how == "nocenters": how = "baddist"
        o["o"] = "out"
        if how == "short": q["n"] += 1
        if how == "long": q["n"] -= 1
        if how == "badinit": o.pop("C", 0); o["t"] = "bogus"
        if how == "baddist": o["d"] = "bogus"
        if how == "medoids-C": o["C"] = q["data"][:q["k"]]
        if how == "nocenters": o["C"] = "/nonexistent/c.bin"
        a = argv(rng, tool, q, o)
        if how == "missing": a = [x.replace(datafile(q["data"]), "/nonexistent/d.bin") for x in a]
        if "O" in o and how == "baddist": pass
        bads.append(dict(tool=tool, how=how, cmd=[tools[tool]] + a, out="out"))
    def one(c):
        cwd = tempfile.mkdtemp(prefix="cli-", dir=tmpdir())
        c["rc"], c["msg"], c["got"] = execute(c["cmd"], cwd, c["out"])
        c["any"] = any(f == "cluster_t.yml" for _, _, fs in os.walk(cwd) for f in fs)
        shutil.rmtree(cwd, ignore_errors=True)
    with cf.ThreadPoolExecutor(NCPU + 4) as ex: list(ex.map(one, cases[::-1] + bads))
    jobs = []
    for c in cases:
        q = dict(c["q"])
        if c["tool"] == "knord": q.update(engine={"dprune": "prune", "dkm": "kmeans"}[q["engine"]], threads=1)
        if q["iters"] == 4294967295: q["iters"] = "4294967295"
        jobs.append(Job([q], timeout=90, tag=c["tool"]))
    run_jobs(eng, jobs)
    for c, j in zip(cases, jobs):
        tool, q, got = c["tool"], c["q"], c["got"]
        show = tool + " " + " ".join(c["cmd"][c["cmd"].index(knord if tool == "knord" else tools[tool]) + 1:])
        dt = dict(cmd=c["cmd"], output=c["msg"][-1500:], kind=c["kind"])
        if not j.ok() or not j.res or j.res[0].error: ck.skip("the library run failed (P01 judges it)"); continue
        r = j.res[0]; k, d = r.k, q["d"]
        ck.case((tool, r.digest()), len(set(r.a)) > 1, dict(command=show, iterations=r.iters, clusters=k))
        ck.count("runs_" + tool)
        for x in c["o"]: ck.count("option_" + x)
        if c["rc"] != 0: ck.violation(tool + " status", "%s: exit status %s: %s" % (show, c["rc"], c["msg"][-700:]), data=dt); continue
        if got is None: ck.violation(tool + " output", "%s: wrote no result into %s" % (show, c["out"]), data=dt); continue
        if isinstance(got, str): ck.violation(tool + " output", "%s: %s" % (show, got), data=dt); continue
        if "\nLEFT" in c["msg"]: ck.violation(tool + " output", "%s: files besides the result: %s" % (show, c["msg"].split("LEFT")[1]), data=dt); continue
        why = None
        exp = dict(k=k, niter=r.iters, nsamples=q["n"], dim=d)
        for key, v in exp.items():
            if got.get(key) != v: why = "%s is %s, not %d" % (key, got.get(key), v); break
        G = np.array([[np.nan if x is None else x for x in row] for row in got.get("centroids", [])], float)
        if why: pass
        elif got.get("size") != [int(x) for x in r.counts]: why = "the sizes are %s, not %s" % (str(got.get("size"))[:80], [int(x) for x in r.counts][:12])
        elif got.get("cluster") != [int(x) for x in r.a]: why = "%s assignments differ" % ((np.array(got["cluster"]) != r.a).sum() if len(got.get("cluster", [])) == len(r.a) else "the number of")
        elif G.shape != (k, d): why = "centroids of shape %s, not %s" % (G.shape, (k, d))
        else:
            E = np.array([float("%g" % x) for x in r.cents]).reshape(k, d)
            tol = 2e-5*np.abs(E) + oracle.mean_tol(q["data"], 100)
            with np.errstate(all="ignore"): off = ~((np.abs(G - E) <= tol) | (np.isnan(G) & np.isnan(E)) | (G == E))
            if off.any(): why = "centroid %d is %s, not %s" % (np.nonzero(off.any(1))[0][0], G[off.any(1)][0][:5], E[off.any(1)][0][:5])
        if why and tool == "knord":
            t = Job([dict(j.runs[0], iters=x) for x in range(0, min(r.iters, 60) + 1)]); run_jobs(eng, [t])
            sys.path.insert(0, os.path.join(VERIF, "checks"))
            import P08
            if t.ok() and P08.ambiguous(t.res, q["data"], q["dist"]): ck.skip("a sample is equally far from two centroids, up to rounding"); continue
        if why: ck.violation(tool + " result", "%s: %s" % (show, why), data=dt)
    for c in bads:
        ck.case((c["tool"], c["how"]), True); ck.count("refused_" + c["how"])
        show = c["tool"] + " (" + c["how"] + ") " + " ".join(c["cmd"][1:])
        if c["rc"] == "timeout": ck.violation(c["tool"] + " refusal", show + ": does not end", data=dict(cmd=c["cmd"]))
        elif c["rc"] == 0 or c["any"]: ck.violation(c["tool"] + " refusal", "%s: exit status %s, %s" % (show, c["rc"], "a result was written" if c["any"] else "nothing written"), data=dict(cmd=c["cmd"], output=c["msg"][-1000:]))
    ck.finish()

if __name__ == "__main__": main(go)
