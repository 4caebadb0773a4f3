"""Shared machinery: building the code under test, running jobs on it, reporting."""
import atexit, base64, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KNORV_REPO", "/repo")
BUILD = os.environ.get("KNORV_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("KNORV_OUT", VERIF)
NCPU = min(8, os.cpu_count() or 1)
os.environ["LC_ALL"] = "C"
os.environ.setdefault("OMP_WAIT_POLICY", "passive")
PATH = "/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"

INC = ["-I" + os.path.join(REPO, p) for p in ("", "libkcommon", "libman", "libauto", "libdist")]
BASE = ["-std=c++11", "-DSTATISTICS", "-w", "-g1", "-fno-omit-frame-pointer"]
WRAP = ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait",
                                    "pthread_cond_signal", "pthread_create", "pthread_join",
                                    "GOMP_parallel", "GOMP_critical_start", "GOMP_critical_name_start")]
WRAPA = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "numa_alloc_onnode", "numa_alloc_local", "numa_alloc",
                                     "numa_alloc_interleaved", "numa_free")]
WRAPN = [f for f in WRAPA if "numa" in f]
VARIANTS = {
    # how the project builds itself, at -O2
    "opt": dict(cxx="g++", cflags=["-O2", "-fopenmp", "-DUSE_NUMA"], ldflags=["-fopenmp", "-lnuma", "-lpthread"] + WRAP + WRAPA),
    "asan": dict(cxx="g++", cflags=["-O1", "-fopenmp", "-DUSE_NUMA", "-fsanitize=address,undefined,float-cast-overflow",
                                    "-fno-sanitize-recover=undefined",
                                    "-fsanitize-address-use-after-scope"],
                 ldflags=["-fopenmp", "-lnuma", "-lpthread", "-fsanitize=address,undefined"] + WRAP),
    "tsan": dict(cxx="g++", cflags=["-O1", "-fopenmp", "-DUSE_NUMA", "-fsanitize=thread"],
                 ldflags=["-lnuma", "-lpthread", "-fsanitize=thread"] + WRAP),
    "tool": dict(cxx="g++", cflags=["-O2", "-fopenmp", "-DUSE_NUMA"], ldflags=["-fopenmp", "-lnuma", "-lpthread"]),
    # uninitialised memory, with memcheck
    "plain": dict(cxx="g++", cflags=["-O1", "-fopenmp", "-DUSE_NUMA"], ldflags=["-fopenmp", "-lnuma", "-lpthread"] + WRAP),
}

class CheckError(Exception):
    """The check itself could not run: neither a pass nor a violation."""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def repo_sources(dirs=("libkcommon", "libman", "libauto")):
    out = []
    for d in dirs:
        p = os.path.join(REPO, d)
        out += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".cpp"))
    return out

def _hash_tree(extra, dirs=("libkcommon", "libman", "libauto", "libdist", "binding", "exec")):
    h = hashlib.sha256()
    for d in dirs:
        p = os.path.join(REPO, d)
        for root, sub, files in os.walk(p):
            sub[:] = sorted(s for s in sub if s not in ("unit-test", "python", "test"))
            for f in sorted(files):
                if f.endswith((".cpp", ".hpp", ".h", ".c")):
                    fp = os.path.join(root, f)
                    h.update(fp[len(REPO):].encode()); h.update(open(fp, "rb").read())
    for e in extra:
        h.update(open(e, "rb").read() if os.path.isfile(e) else str(e).encode())
    return h.hexdigest()

def build(name, variant="opt", harness=("engines.cpp", "perturb.cpp", "alloc.cpp"), dirs=("libkcommon", "libman", "libauto"),
          cflags=(), ldflags=(), sources=(), wrap=True, precompile=()):
    """Builds /verif/harness/* with the sources of /repo's current tree; returns the binary."""
    v = VARIANTS[variant]
    hs = [os.path.join(VERIF, "harness", h) for h in harness]
    hdr = sorted(os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".hpp"))
    key = _hash_tree(hs + hdr + [json.dumps([v, list(cflags), list(ldflags), BASE, name, dirs, list(sources), wrap])])
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    binary, stamp = os.path.join(out, name), os.path.join(out, name + ".stamp")
    with open(os.path.join(out, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == key:
            return binary
        # objects of the code under test are shared by the harnesses of a variant
        okey = _hash_tree([json.dumps([v, BASE, REPO])], )
        odir = os.path.join(out, "obj")
        ost = os.path.join(odir, ".key")
        if not (os.path.exists(ost) and open(ost).read() == okey + json.dumps(list(cflags))):
            shutil.rmtree(odir, ignore_errors=True)
            os.makedirs(odir)
            with open(ost, "w") as f: f.write(okey + json.dumps(list(cflags)))
        env = dict(os.environ, PATH=PATH)
        jobs = []
        objs = []
        for s in list(repo_sources(dirs)) + [os.path.join(REPO, x) for x in sources]:
            o = os.path.join(odir, s[len(REPO):].strip("/").replace("/", "_") + ".o")
            objs.append(o)
            if not os.path.exists(o): jobs.append((s, o))
        for s in [os.path.join(REPO, x) for x in precompile]:     # linked by later calls
            o = os.path.join(odir, s[len(REPO):].strip("/").replace("/", "_") + ".o")
            if not os.path.exists(o) and (s, o) not in jobs: jobs.append((s, o))
        for s in hs:
            o = os.path.join(out, name + "_" + os.path.basename(s) + ".o")
            objs.append(o); jobs.insert(0, (s, o))
        def one(so):
            s, o = so
            r = sh([v["cxx"]] + BASE + v["cflags"] + list(cflags) + INC + ["-I" + os.path.join(VERIF, "harness"), "-c", s, "-o", o + ".tmp"], env=env)
            if r.returncode == 0: os.rename(o + ".tmp", o)
            return s, r
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s, r in ex.map(one, jobs):
                if r.returncode: raise CheckError("cannot compile %s:\n%s" % (s, r.stdout[-3000:]))
        r = sh([v["cxx"]] + objs + ["-o", binary + ".tmp"] + [f for f in v["ldflags"] if wrap or "--wrap" not in f] + list(ldflags), env=env)
        if r.returncode: raise CheckError("cannot link %s:\n%s" % (name, r.stdout[-3000:]))
        os.rename(binary + ".tmp", binary)
        with open(stamp, "w") as f: f.write(key)
    return binary

TOOLS = ("knori", "mb_knori", "kmeanspp", "medoids", "skmeans", "fcm", "hmeans", "xmeans", "gmeans")

def build_tools():
    """The command-line tools of /repo's tree, by name."""
    src = ["exec/%s.cpp" % t for t in TOOLS]
    return {t: build(t, "tool", harness=(), sources=["exec/%s.cpp" % t], wrap=False, precompile=src) for t in TOOLS}

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="knorv-")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

_files = {}
def datafile(a):
    """A file with the numbers of an array (row-major doubles)."""
    a = np.ascontiguousarray(a, dtype=np.float64)
    h = hashlib.sha1(a.tobytes() + str(a.shape).encode()).hexdigest()[:20]
    if h not in _files:
        p = os.path.join(tmpdir(), "d" + h + ".bin")
        a.tofile(p)
        _files[h] = p
    return _files[h]

class Run:
    """What one run returned."""
    def __init__(self, hdr, A, N, C, X):
        self.__dict__.update(hdr)
        self.a, self.counts, self.cents, self.x_after = A, N, C, X
        self.energy = float.fromhex(hdr["energy"])
    def C(self):
        return self.cents.reshape(-1, self.ncol) if self.ncol else self.cents
    def same(self, o):
        return (self.iters == o.iters and self.k == o.k and np.array_equal(self.a, o.a) and
                np.array_equal(self.counts, o.counts) and self.cents.tobytes() == o.cents.tobytes() and self.error == o.error)
    def digest(self):
        return hashlib.sha1(self.a.tobytes() + self.counts.tobytes() + self.cents.tobytes() + b"%d" % self.iters).hexdigest()[:12]

class Job:
    def __init__(self, runs, timeout=60, tag="", meta=None, **opts):
        self.runs, self.timeout, self.tag, self.meta, self.opts = runs, timeout, tag, meta or {}, opts
        self.how, self.code, self.err, self.res, self.wall = None, None, "", [], 0
    def ok(self):
        return self.how == "exit" and self.code == 0
    def spec(self):
        return {"tag": self.tag, "opts": self.opts, "timeout": self.timeout,
                "runs": [{k: (v if not isinstance(v, np.ndarray) else "array%s" % (v.shape,)) for k, v in r.items()} for r in self.runs]}

def _write_jobs(jobs, path, scale=1.0):
    with open(path, "w") as f:
        for i, j in enumerate(jobs):
            f.write("job j%d timeout=%g %s\n" % (i, j.timeout*scale, " ".join("%s=%s" % kv for kv in j.opts.items())))
            for r in j.runs:
                kv = []
                for k, v in r.items():
                    if isinstance(v, np.ndarray): v = datafile(v)
                    elif isinstance(v, float): v = repr(v)
                    kv.append("%s=%s" % (k, v))
                f.write("run " + " ".join(kv) + "\n")
            f.write("end\n")

def _read_res(path):
    out = []
    with open(path, "rb") as f:
        while True:
            line = f.readline()
            if not line: break
            h = json.loads(line.decode("latin1"))
            A = np.frombuffer(f.read(4*h["na"]), dtype=np.uint32)
            N = np.frombuffer(f.read(8*h["nc"]), dtype=np.int64)
            C = np.frombuffer(f.read(8*h["nm"]), dtype=np.float64)
            X = np.frombuffer(f.read(8*h["nx"]), dtype=np.float64)
            out.append(Run(h, A, N, C, X))
    return out

RUN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_init_order=1:malloc_fill_byte=190:max_malloc_fill_size=1048576",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_thread_leaks=0:history_size=4:second_deadlock_stack=1",
}

HANGS = [0]     # confirmed so far by this process
def run_jobs(binary, jobs, par=None, env=None, prefix=(), rerun=True, slow=1.0):
    """Runs the jobs; fills how/code/err/res of each."""
    if not jobs: return jobs
    par = par or NCPU
    d = tempfile.mkdtemp(prefix="run-", dir=tmpdir())
    jf = os.path.join(d, "jobs")
    _write_jobs(jobs, jf, slow)
    e = dict(os.environ, **RUN_ENV)
    e.update(env or {})
    total = min(120 + sum(j.timeout for j in jobs)*slow, 14*86400)
    p = subprocess.run(list(prefix) + [binary, jf, d, str(par), str((4 if HANGS[0] else 12) if rerun else 1 << 30)], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=total)
    idx = {}
    done = False
    if os.path.exists(os.path.join(d, "index")):
        for line in open(os.path.join(d, "index")):
            w = line.split()
            if w == ["done"]: done = True
            elif len(w) == 4: idx[w[0]] = (w[1], int(w[2]), float(w[3]))
    if p.returncode or not done:
        raise CheckError("the job runner failed (%s): %s" % (p.returncode, p.stdout[-2000:]))
    hung = []
    for i, j in enumerate(jobs):
        j.how, j.code, j.wall = idx["j%d" % i]
        ef = os.path.join(d, "j%d.err" % i)
        j.err = open(ef, errors="replace").read() if os.path.exists(ef) else ""
        rf, tf = os.path.join(d, "j%d.res" % i), os.path.join(d, "j%d.tmp" % i)
        j.res = []
        if os.path.exists(rf): j.res = _read_res(rf)
        if j.how == "exit" and j.code in (94, 95, 96, 97):
            raise CheckError("the harness failed: " + j.err[-1500:])
        if j.how == "timeout" or (j.how == "signal" and j.code in (9, 15)): hung.append(j)   # nothing in the code sends these
    shutil.rmtree(d, ignore_errors=True)
    if hung and rerun:     # a hang (or an end from outside) must happen again, with little else running, to count
        run_jobs(binary, hung[:4], par=2, env=env, prefix=prefix, rerun=False, slow=slow)
        HANGS[0] += sum(h.how == "timeout" for h in hung[:4])
        for j in hung[4:]:  # not run again: judged by the ones that were
            if all(h.how not in ("timeout", "signal") for h in hung[:4]): j.how, j.code = "unknown", 0
    return jobs

def errtext(err, n=1800):
    """The part of a process's messages that tells why it ended."""
    m = re.search(r"(==\d+==ERROR|WARNING: ThreadSanitizer|[^\n]*runtime error:|[^\n]*Assertion)", err)
    return err[m.start():m.start() + n] if m else err.strip()[-n:]

def job_failure(j):
    """Why a job has no result, or None."""
    if j.ok():
        want = sum(min(int(r.get("repeat", 1)), 2*int(r.get("keep", r.get("repeat", 1)))) for r in j.runs)
        if len(j.res) < want: return "the process ended itself in run %d of %d" % (len(j.res) + 1, want)
        return None
    tail = errtext(j.err)
    if j.how == "timeout": return "the run did not end within %g s (twice). %s" % (j.timeout, tail)
    if j.how == "signal": return "the run was ended by signal %d. %s" % (j.code, tail)
    if j.how == "unknown": return None
    return "the run ended with exit status %d. %s" % (j.code, tail)

class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"): self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED") or "1")
        self.quick = self.tier != "thorough"
        self.rng = np.random.default_rng([self.seed, int(re.sub(r"\D", "", pid))])
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.assumptions = list(assumptions)
        self.nviol = 0
        self.known_hit = {}
        self.skipped = {}
        self.rdir = os.path.join(OUT, "replay", pid)
        shutil.rmtree(self.rdir, ignore_errors=True)
        self.known = []
        kf = os.path.join(VERIF, "KNOWN_FINDINGS")
        if os.path.exists(kf):
            for line in open(kf):
                m = re.match(r"known: property=(\w+) match=/(.*?)/ (.*)", line.strip())
                if m and m.group(1) == pid: self.known.append((re.compile(m.group(2)), m.group(3)))
    def scale(self, quick, thorough):
        return max(1, int((quick if self.quick else thorough)*float(os.environ.get("KNORV_SCALE", "1"))))
    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n
    def case(self, ident=None, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial and ident is not None: self.distinct.add(ident)
        if sample is not None and len(self.samples) < 12: self.samples.append(sample)
    def skip(self, why, n=1):
        self.skipped[why] = self.skipped.get(why, 0) + n
    def violation(self, key, msg, job=None, data=None):
        """key: what fails, stable over runs; matched against the known findings."""
        for rx, what in self.known:
            if rx.search(key):
                self.known_hit[what] = self.known_hit.get(what, 0) + 1
                return
        self.nviol += 1
        if self.nviol > int(os.environ.get("KNORV_MAXVIOL", "10")): return
        os.makedirs(self.rdir, exist_ok=True)
        p = os.path.join(self.rdir, "violation%d" % self.nviol)
        os.makedirs(p, exist_ok=True)
        rec = {"property": self.pid, "key": key, "message": msg, "seed": self.seed, "tier": self.tier,
               "rerun": "VERIF_SEED=%d bash run.sh %s %s" % (self.seed, self.pid, self.tier)}
        if job is not None:
            rec["job"] = job.spec()
            for r in job.runs:
                for k, v in r.items():
                    if isinstance(v, np.ndarray) and v.nbytes < 1 << 24:
                        f = os.path.basename(datafile(v)); v.astype(np.float64).tofile(os.path.join(p, f))
            lines = ["job j0 timeout=%g %s" % (job.timeout, " ".join("%s=%s" % kv for kv in job.opts.items()))]
            for r in job.runs:
                lines.append("run " + " ".join("%s=%s" % (k, os.path.join(p, os.path.basename(datafile(v))) if isinstance(v, np.ndarray) else v) for k, v in r.items()))
            with open(os.path.join(p, "job"), "w") as f: f.write("\n".join(lines + ["end"]) + "\n")
            rec["replay"] = "%s/<variant>/engines %s/job OUTDIR 1" % (BUILD, p)
        if data is not None: rec["data"] = data
        with open(os.path.join(p, "replay.json"), "w") as f: json.dump(rec, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(p, "replay.json")))
        print("  " + key + ": " + msg.replace("\n", "\n  ")[:1500])
        sys.stdout.flush()
    def check_job(self, j, key):
        """A job that crashed, hung or was aborted is a violation; returns True if there are results."""
        why = job_failure(j)
        if why is not None:
            self.violation(key + " " + j.how, why, job=j)
            return False
        return j.ok() and len(j.res) > 0
    def finish(self):
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        cov = dict(evaluations=int(self.evaluations), distinct_nontrivial=len(self.distinct), rule=self.rule, samples=self.samples or ["none"])
        cov.update(self.cov)
        if self.skipped: cov["not_judged"] = self.skipped
        if self.known_hit: cov["known_findings_hit"] = self.known_hit
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=self.nviol)
        with open(os.path.join(OUT, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=_js)
        for what in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if not self.nviol and (self.evaluations == 0 or not self.distinct):
            print("ERROR: nothing was observed"); sys.exit(3)
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1f s" % (self.pid, self.tier, self.seed,
              self.evaluations, len(self.distinct), self.nviol, time.time() - self.t0))
        sys.exit(1 if self.nviol else 0)

def _js(o):
    if isinstance(o, (np.integer,)): return int(o)
    if isinstance(o, (np.floating,)): return float(o)
    if isinstance(o, np.ndarray): return o.tolist()
    return str(o)

def main(check_cls_fn):
    """Runs a check function and turns its own failures into exit status 3."""
    import traceback
    try:
        check_cls_fn()
    except SystemExit:
        raise
    except CheckError as e:
        print("ERROR:", e); sys.exit(3)
    except Exception:
        traceback.print_exc(); sys.exit(3)
