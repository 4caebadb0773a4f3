"""Runs the unit-level monitors (harness/u_*.cpp) and turns what they report into check results."""
import concurrent.futures as cf
from knorv import *

def run_units(ck, name, cases, variant="asan", chunks=8, timeout=600, env=None, wrap=False, more=(), prefix=(), **kw):
    binary = build(name, variant, harness=(name + ".cpp",) + tuple(more), wrap=wrap, **kw)
    cases = max(chunks, cases); per = -(-cases//chunks)
    d = tmpdir(); e = dict(os.environ, **RUN_ENV); e.update(env or {})
    def one(c):
        o = os.path.join(d, "%s.%s.%s.%d" % (name, variant, (env or {}).get("U_MODE", ""), c))
        seed = ck.seed*1000 + c
        try:
            p = subprocess.run(list(prefix) + [binary, str(seed), str(per), o], env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired as t:
            rc, err = "timeout", ""
        return seed, rc, err, o
    with cf.ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, range(chunks)))
    for seed, rc, err, o in res:
        last, ended, began = None, False, None
        if not os.path.exists(o): raise CheckError("%s wrote nothing: %s" % (name, err[-1500:]))
        for line in open(o, errors="replace"):
            w = line.rstrip("\n").split("\t")
            if w[0] == "BEGIN": began = w[1]
            elif w[0] == "CASE": ck.case(w[1], True, w[2] if len(ck.samples) < 12 else None)
            elif w[0] == "STAT": ck.count(w[1], int(w[2]))
            elif w[0] == "VIOL": ck.violation(w[1], w[2], data=dict(seed=seed, cases=per, rerun="%s %d %d OUT [CASE]" % (binary, seed, per)))
            elif w[0] == "END": ended = True
        if rc == 97: raise CheckError("%s: harness failed: %s" % (name, err[-1500:]))
        if rc != 0 or not ended:
            ck.evaluations += 1
            ck.violation("crash", "case %s of seed %d ended with %s: %s" % (began, seed, rc, errtext(err)),
                         data=dict(seed=seed, case=began, rerun="%s %d %d OUT %s" % (binary, seed, per, began)))
