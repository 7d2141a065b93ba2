"""Executes a plan (ndjson, written by TLC from Plan.tla/Session.tla) against the real code
and records the trace (ndjson).  exec.py PLAN TRACE [SECONDS]"""
import json, os, signal, sys, time, traceback

for k, v in dict(JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                 MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1").items():
    os.environ[k] = v
os.environ["XLA_FLAGS"] = ("--xla_backend_optimization_level=0 "
                           "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/repo")
import warnings
warnings.filterwarnings("ignore")


def run_one(M, t):
    t0 = time.time()
    e = dict(t)
    e["err"] = ""
    try:
        e.update(M[t["kind"]](t))
    except BaseException as x:
        e["err"] = type(x).__name__
        e["msg"] = (str(x) or "").replace("\n", " ")[:200]
        if os.environ.get("VERBOSE"):
            traceback.print_exc()
    e["ms"] = int((time.time() - t0) * 1000)
    return e


def chunked(tasks):
    """Tasks of one band-limit share compiled code, so they run in one process where that
    keeps the load balanced; the heaviest chunks start first."""
    def weight(ts):
        return sum(t.get("w", 1) for t in ts)
    cap = max(weight(tasks) / 24.0, 1.0)
    groups = {}
    for t in tasks:
        if t["kind"] == "sess":
            groups[len(groups)] = [t]
        else:
            groups.setdefault((t.get("L", 0), t.get("smp", "")), []).append(t)
    chunks = []
    for g in groups.values():
        g.sort(key=lambda t: -t.get("w", 1))
        cur = []
        for t in g:
            if cur and weight(cur) + t.get("w", 1) > cap:
                chunks.append(cur)
                cur = []
            cur.append(t)
        chunks.append(cur)
    chunks.sort(key=lambda c: -weight(c))
    return chunks


def main():
    plan, out = sys.argv[1], sys.argv[2]
    t_end = time.time() + (float(sys.argv[3]) if len(sys.argv) > 3 else 480.0)
    tmo = 200.0
    tasks = [json.loads(l) for l in open(plan) if l.strip()]
    try:
        import s2wav
    except BaseException:
        traceback.print_exc()
        print("IMPORT-FAILED")
        sys.exit(3)
    import measure, session
    M = {k[2:]: getattr(measure, k) for k in dir(measure) if k.startswith("k_")}
    M["sess"] = session.k_sess
    assert "s2wav" in sys.modules and sys.modules["s2wav"].__file__.startswith("/repo/"), \
        "s2wav must be imported from /repo"
    assert len(os.listdir("/proc/self/task")) == 1, "fork after threads"
    chunks = chunked(tasks)
    tmpd = out + ".d"
    os.makedirs(tmpd, exist_ok=True)
    procs = {}
    nproc = int(os.environ.get("NPROC", "8"))
    todo = list(enumerate(chunks))
    while todo or procs:
        if time.time() > t_end:
            todo = []
        while todo and len(procs) < nproc:
            i, c = todo.pop(0)
            pid = os.fork()
            if pid == 0:
                try:
                    os.setsid()
                    with open("%s/%d" % (tmpd, i), "w") as fh:
                        for t in c:
                            fh.write(json.dumps(run_one(M, t)) + "\n")
                            fh.flush()
                finally:
                    os._exit(0)
            procs[pid] = (i, time.time(), tmo * (1 + 0.2 * len(c)))
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid:
            procs.pop(pid, None)
            continue
        now = time.time()
        for p, (i, t0, lim) in list(procs.items()):
            if now - t0 > lim or now > t_end:
                try:
                    os.killpg(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        time.sleep(0.02)
    got = {}
    for i, _ in enumerate(chunks):
        try:
            for l in open("%s/%d" % (tmpd, i)):
                try:
                    e = json.loads(l)
                    got[e["id"]] = e
                except ValueError:
                    pass
        except FileNotFoundError:
            pass
        try:
            os.remove("%s/%d" % (tmpd, i))
        except OSError:
            pass
    os.rmdir(tmpd)
    with open(out, "w") as fh:
        for t in tasks:
            e = got.get(t["id"])
            if e is None:                       # killed or crashed: a terminal event
                e = dict(t)
                e["err"] = "NoResult"
                e["ms"] = -1
            fh.write(json.dumps(e) + "\n")


main()
