# runs knord and knori in scratch directories and reads what they wrote
import os, random, re, struct, subprocess, sys, tempfile
REPO = os.getcwd(); T = sys.argv[1]
E = dict(os.environ, LC_ALL="C", PATH="/opt/vp/bin:" + os.environ["PATH"], OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
MPI = ["mpirun.openmpi", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "oob_tcp_if_include", "lo", "--mca", "plm", "isolated"]
cnt = [0]
def data(x, name="data.bin"):
    p = os.path.join(T, name); open(p, "wb").write(struct.pack("%dd" % len(x), *x)); return p
def run(cmd, limit=90):
    cnt[0] += 1; d = os.path.join(T, "run%d" % cnt[0]); os.mkdir(d)
    try: r = subprocess.run(cmd, cwd=d, env=E, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired: fail("a run did not end: " + " ".join(cmd))
    f = os.path.join(d, "cluster_t.yml")
    if r.returncode or not os.path.exists(f): fail("a run failed: %s\n%s" % (" ".join(cmd), r.stderr.decode()[-2000:]))
    s = open(f).read()
    g = lambda k: [int(v) for v in re.search(r"^%s: \[(.*)\]" % k, s, re.M).group(1).split(",")]
    return dict(it=int(re.search(r"niter: (\d+)", s).group(1)), n=g("size"), a=g("cluster"), text=s[s.index("cluster:"):])
def dist(np, args): return run(MPI + ["-n", str(np), os.path.join(REPO, "exec/knord")] + args + ["-o", "out"])
def single(args): return run([os.path.join(REPO, "exec/knori")] + args + ["-o", "out"])
def fail(m): print("FAILED:", m, file=sys.stderr); sys.exit(1)
def blobs(n, d, g, seed):
    r = random.Random(seed); c = [[r.uniform(-50, 50) for _ in range(d)] for _ in range(g)]
    return [v + r.gauss(0, 4) for i in range(n) for v in r.choice(c)]
