"""Runs the distributed engines (harness/dist.cpp under mpirun) and reads what every process recorded."""
import concurrent.futures as cf
from knorv import *

import gen

def dist_case(rng, i, kinds, edge=False):
    """A configuration for a distributed run and layouts (engine, processes, threads) for it."""
    init = ["none", "forgy", "kmeanspp", "random"][i % 4]
    kind = str(rng.choice(kinds))
    n, d = gen.shape(rng); n = min(max(n, 4), 600); d = min(d, 40)
    if i % 60 == 7: n, d = int(rng.integers(8300, 17000)), 2     # more than one task per thread
    if edge and rng.random() < .5: n, d = int(rng.integers(2, 20)), int(rng.integers(1, 4))
    k = gen.pick_k(rng, n, 2)
    X = gen.dataset(rng, kind, n, d)
    q = dict(data=X, n=n, d=d, k=k, init=init, dist=str(rng.choice(["eucl", "eucl", "cos", "sqeucl", "taxi"] if d > 1 else ["eucl", "taxi"])))
    q["iters"] = int(rng.choice([0, 1, 2, 3, 5, 12, 40]))
    if rng.random() < .25: q["tol"] = float(rng.choice([0, .01, .1, .3]))
    if init == "none": q["centers"] = gen.centers(rng, X, k); q["ncent"] = k
    nps = [p for p in (1, 2, 3, 4, 5, 6, 8) if p <= n]
    lay = [(e, int(rng.choice(nps)), int(rng.choice([1, 2, 3, 4, 5, 9], p=[.3, .25, .15, .1, .1, .1])))
           for e in ("dkm", "dprune", str(rng.choice(["dkm", "dprune"])))]
    return q, kind, lay

def layout(rng, q, e, p, t):
    r = dict(q, engine=e, threads=t)
    if rng.random() < .5: r["stall"] = int(rng.choice([1, 3])); r["perturb"] = "%d:%d" % (rng.integers(1, 1 << 20), 1 if q["n"] > 1000 else 2)
    x = DRun(r, p); x.tag = "%s x %d processes x %d threads" % (e, p, t)
    return x

def build_dist(variant="opt", more=(), ldflags=()):
    show = sh(["mpicxx.mpich", "-show"], env=dict(os.environ, PATH=PATH)).stdout.split()
    inc = [a for a in show if a.startswith("-I")]; lib = [a for a in show if a[:2] in ("-L", "-l")]
    v = VARIANTS[variant]; name = "mpi-" + variant
    VARIANTS[name] = dict(cxx="g++", cflags=v["cflags"] + inc, ldflags=[f for f in v["ldflags"] if f not in WRAPA] + lib)
    return build("dist", name, harness=("dist.cpp", "perturb.cpp") + tuple(more), ldflags=ldflags, dirs=("libkcommon", "libman", "libdist"))

def build_knord():
    build_dist()
    return build("knord", "mpi-opt", harness=(), dirs=("libkcommon", "libman", "libdist"), sources=["exec/knord.cpp"], wrap=False)

# Here MPICH is built for PMIx, which its own mpirun does not speak: it would start every process as a world of its
# own. Open MPI's does.
MPIRUN = ["mpirun.openmpi", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "oob_tcp_if_include", "lo", "--mca", "plm", "isolated"]

class Proc:
    """What one process recorded of one run."""
    def __init__(self, f, h, d):
        self.__dict__.update(h)
        def rd(t, m): return np.frombuffer(f.read(np.dtype(t).itemsize*m), dtype=t)
        self.data = rd(np.float64, h["nd"]).reshape(-1, d); self.a = rd(np.uint32, h["na"]); self.means = rd(np.float64, h["nm"]); self.memb = rd(np.int64, h["nc"])
        self.ra = rd(np.uint32, h["ra"]); self.rc = rd(np.int64, h["rc"]); self.rm = rd(np.float64, h["rm"])
        self.ev = rd(np.uint64, 4*h["ev"]).reshape(-1, 4)

class DRun:
    def __init__(self, run, np_, meta=None):
        self.run, self.np, self.meta, self.procs, self.fail = run, np_, meta or {}, [], None
        self.runs, self.opts, self.timeout, self.tag = [run], {"np": np_}, 60, ""
    def spec(self):
        return {"mpirun -n": self.np, "run": {k: (v if not isinstance(v, np.ndarray) else "array%s" % (v.shape,)) for k, v in self.run.items()}}

def _one(binary, np_, rs, env, timeout):
    d = tempfile.mkdtemp(prefix="mpi-", dir=tmpdir())
    for r in rs: r.procs, r.fail = [], None
    with open(os.path.join(d, "jobs"), "w") as f:
        for r in rs:
            f.write("run " + " ".join("%s=%s" % (k, datafile(v) if isinstance(v, np.ndarray) else repr(v) if isinstance(v, float) else v) for k, v in r.run.items()) + "\n")
    e = dict(os.environ, **RUN_ENV); e["TSAN_OPTIONS"] += ":report_signal_unsafe=0:ignore_noninstrumented_modules=1"
    e.update(env or {}); e.update(PATH=PATH, TMPDIR=d, OMPI_MCA_orte_tmpdir_base=d)
    p = subprocess.Popen([*MPIRUN, "-n", str(np_), binary, os.path.join(d, "jobs"), os.path.join(d, "o")], env=e, cwd=d, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try: out, rc = p.communicate(timeout=timeout)[0], p.returncode
    except subprocess.TimeoutExpired:
        for s in (signal.SIGTERM, signal.SIGKILL):
            try: os.killpg(p.pid, s)
            except ProcessLookupError: pass
            time.sleep(.3)
        sh(["pkill", "-KILL", "-f", os.path.join(d, "jobs")])      # the processes, which hydra starts in groups of their own
        out, rc = p.communicate()[0], "timeout"
    errs = ""
    for i in range(np_):
        f = os.path.join(d, "o.err%d" % i)
        if os.path.exists(f):
            t = open(f, errors="replace").read()
            if re.search("ERROR|runtime error|Assert|terminate|HARNESS|what", t): errs += "[process %d] %s\n" % (i, errtext(t, 1200))
        f = os.path.join(d, "o.res%d" % i)
        if not os.path.exists(f): continue
        with open(f, "rb") as fh:
            while True:
                line = fh.readline()
                if not line: break
                try:
                    h = json.loads(line.decode("latin1")); r = rs[h["run"]]
                    r.procs.append(Proc(fh, h, r.run["d"]))
                except (ValueError, IndexError, KeyError): break
    shutil.rmtree(d, ignore_errors=True)
    if "HARNESS" in errs: raise CheckError(errs)
    bad = [r for r in rs if len(r.procs) < np_]
    if bad or rc != 0: bad = bad or rs[-1:]
    return rc, (errs or out[-800:]), bad

def run_dist(binary, drs, par=None, env=None, batch=12, timeout=60, slow=1):
    """Runs them, several per mpirun; a run that left no result is run again alone to blame it."""
    groups = {}
    for r in drs: groups.setdefault(r.np, []).append(r)
    work = [(n, rs[i:i + batch]) for n, rs in groups.items() for i in range(0, len(rs), batch)]
    cost = [0.0]                # failures take time: after enough of them the rest is not run
    for r in drs: r.unknown = False
    def job(w):
        n, rs = w
        if cost[0] > 10:
            for r in rs: r.unknown = True
            return
        rc, msg, bad = _one(binary, n, rs, env, slow*(timeout + len(rs)))
        if not bad: return
        cost[0] += 3 if rc == "timeout" else 1
        if len(rs) == 1: bad[0].fail = "%s: %s" % (rc, msg); return
        k = min(i for i, r in enumerate(rs) if r in bad)
        rc2, msg2, bad2 = _one(binary, n, [rs[k]], env, slow*timeout)
        if bad2: rs[k].fail = "%s: %s" % (rc2, msg2)
        elif rc == "timeout": rs[k].unknown = True      # a hang must happen again to count
        else: rs[k].fail = "after %d other runs: %s: %s" % (k, rc, msg)
        if k + 1 < len(rs): job((n, rs[k + 1:]))
    with cf.ThreadPoolExecutor(par or NCPU) as ex: list(ex.map(job, work))
    for r in drs:
        if r.unknown: r.procs = []
    return [r for r in drs if not r.unknown]
