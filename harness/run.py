"""run.py PROP: decides one property.

  1. TLC checks the specification's own facts (models MC*.tla named in MODELS);
  2. TLC generates the calls to make from the specification (Plan.tla, SessionPlan.tla);
  3. exec.py makes those calls on the code in /repo and records what happened;
  4. TLC validates the recorded trace against the specification (Judge.tla, SessionTrace.tla).

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: the
machinery itself failed.   run.py --replay FILE repeats one recorded violation."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
PY = "/opt/venv/bin/python"

T, K, X, S = "MCTiling", "MCKernels", "MCTransform", "MCSession"
MODELS = {
    "C01": [X], "C02": [X], "C03": [X], "C04": [K], "C05": [K], "C06": [K], "C07": [K],
    "C08": [T], "C09": [T], "C10": [K, X], "C11": [K, X], "C12": [X], "C13": [X], "C14": [T, X],
    "C15": [T], "C16": [S, "MCOverlap"], "C17": [X], "C18": [T], "C19": [X], "C20": [T, X], "C21": [T],
    "C22": [X], "C23": [K], "C24": [K, X], "C25": [X], "C26": ["MCSymmetry"],
}
IDENT = ("kind", "op", "bk", "bks", "impl", "impls", "what", "L", "N", "J0", "p", "q", "smp", "nside",
         "real", "spin", "spin0", "mr", "sig", "jmax", "seed", "dtype", "arg", "dL")


class Broken(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = ""
    e.setdefault("VERIF_SEED", "1")
    e.setdefault("VERIF_TIER", "quick")
    e.update(kw)
    return e


def tlc(mod, cfg, work, workers="1", **kw):
    d = os.path.join(work, "m-" + mod)
    return subprocess.Popen(
        ["tlc", "-workers", workers, "-metadir", d, "-config", cfg, mod + ".tla"],
        cwd=SPEC, env=env(**kw), stdout=open(os.path.join(work, mod + ".out"), "w"),
        stderr=subprocess.STDOUT)


def model_cfg(mod, deep):
    """Larger constants for a thorough run, where they are given."""
    big = mod + ".thorough.cfg"
    return big if deep and os.path.exists(os.path.join(SPEC, big)) else mod + ".cfg"


def finish(p, mod, work, limit, fatal=True):
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        raise Broken("TLC on %s did not finish in %d s" % (mod, limit))
    out = open(os.path.join(work, mod + ".out")).read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if fatal and (rc != 0 or "Error" in out):
        raise Broken("TLC on %s (exit %d): %s" % (mod, rc, "\n".join(
            [l for l in out.splitlines() if not l.startswith("TLC2")][-25:])))
    return out, gen, dist


def execute(plan, trace, limit, work, nproc=None):
    e = env()
    if nproc:
        e["NPROC"] = str(nproc)
    try:
        p = subprocess.run([PY, os.path.join(HERE, "exec.py"), plan, trace, str(limit)], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit + 120)
    except subprocess.TimeoutExpired:
        raise Broken("the executor did not stop")
    if p.returncode != 0:
        text = p.stdout.decode(errors="replace")
        if "IMPORT-FAILED" in text:
            return text[-3000:]
        raise Broken("executor: " + text[-3000:])
    return ""


def read(path):
    return [json.loads(l) for l in open(path) if l.strip()]


def write(path, rows):
    with open(path, "w") as fh:
        for r in rows:
            fh.write(json.dumps(r) + "\n")


def judge(prop, plan, trace, work):
    mod = "SessionTrace" if prop == "C16" else "Judge"
    p = tlc(mod, mod + ".cfg", work, "8", VPLAN=plan, VTRACE=trace)
    out, gen, dist = finish(p, mod, work, 900)
    if '"JUDGED"' not in out:
        raise Broken("the trace was not validated to its end")
    bad = {}
    for i, c in re.findall(r'<<"FAIL", (\d+), "([^"]*)">>', out):
        bad.setdefault(int(i), set()).add(c)
    n = int(re.search(r'<<"JUDGED", (\d+)', out).group(1))
    if prop == "C16" and not bad and '"all"' not in out:
        raise Broken("a session was not followed to its end")
    return bad, n, gen, dist


def ident(e):
    return {k: e[k] for k in IDENT if k in e}


def known(prop, e, clause, findings):
    for f in findings:
        if f["property"] == prop and f["clause"] == clause and \
           all(e.get(k) == v for k, v in f["input"].items()):
            return f
    return None


def trimmed(e):
    s = json.dumps(e)
    return e if len(s) < 1500 else dict(ident(e), event=s[:1200] + "...")


def run(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    deep = tier == "thorough"
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix="s2wav-%s-" % prop)
    procs = []
    try:
        states = trans = 0
        plan, trace = os.path.join(work, "plan.nd"), os.path.join(work, "trace.nd")
        pm = "SessionPlan" if prop == "C16" else "Plan"
        p = tlc(pm, "Empty.cfg", work, "1", VPROP=prop, VPLAN=plan)
        procs.append(p)
        finish(p, pm, work, 300)
        models = [(m, tlc(m, model_cfg(m, deep), work, "4" if deep else "2")) for m in MODELS[prop]]
        procs += [m[1] for m in models]
        tasks = read(plan)
        if not tasks:
            raise Broken("empty plan")
        lim = 10000 if deep else 480
        fail = execute(plan, trace, lim, work)
        violations, samples, judged, kf = [], [], 0, []
        if fail:
            violations.append(dict(property=prop, clauses=["the package imports"], detail=fail))
        else:
            es = read(trace)
            # a call that gave no result at all is tried once more, on a quieter machine
            again = [e for e in es if e["err"] == "NoResult"]
            if again:
                ids = {e["id"] for e in again}
                p2, t2 = plan + "2", trace + "2"
                write(p2, [t for t in tasks if t["id"] in ids])
                if not execute(p2, t2, 10000 if deep else 160, work, 4):
                    re_ = {e["id"]: e for e in read(t2)}
                    es = [re_.get(e["id"], e) if e["id"] in ids else e for e in es]
                    write(trace, es)
            bad, judged, g, d = judge(prop, plan, trace, work)
            states += d
            trans += g
            findings = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
            for i in sorted(bad):
                e = es[i - 1]
                new = []
                for c in sorted(bad[i]):
                    f = known(prop, e, c, findings)
                    if f:
                        kf.append((f["what"], e["id"]))
                    else:
                        new.append(c)
                if new:
                    violations.append(dict(property=prop, clauses=new, task=tasks[i - 1], event=e))
            good = [e for k, e in enumerate(es) if k + 1 not in bad]
            for e in good[:: max(1, len(good) // 4)][:4]:
                samples.append(trimmed(e))
        for m, pr in models:
            _, g, d = finish(pr, m, work, 3600 if deep else 600)
            states += d
            trans += g
        for w in sorted({w for w, _ in kf}):
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
        for f in os.listdir(EVID):
            if f.startswith("replay-%s-" % prop):
                os.remove(os.path.join(EVID, f))
        for n, v in enumerate(violations[:20]):
            path = os.path.join(EVID, "replay-%s-%d.json" % (prop, n + 1))
            json.dump(v, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  clauses: %s   input: %s" % (", ".join(v["clauses"]),
                                                json.dumps(ident(v.get("task", {})))))
        kinds = {}
        for t in tasks:
            k = t["kind"] + (":" + t["bk"] if "bk" in t else "")
            kinds[k] = kinds.get(k, 0) + 1
        json.dump(dict(
            property=prop, tier=tier, seed=seed, level="model_checking",
            coverage=dict(states=states, transitions=trans, traces_validated_against_impl=judged,
                          samples=samples or [trimmed(tasks[0])], calls_by_kind=kinds,
                          models=MODELS[prop], known_findings=len({w for w, _ in kf})),
            assumptions=["s2fft's sampling theorems and Wigner transforms (used to move between "
                         "maps and harmonic coefficients in the harness)",
                         "configurations beyond the bounds of spec/Plan.tla are not executed"],
            wall_s=round(time.time() - t0, 1), violations=len(violations)),
            open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d calls judged, %d states, %d violations, %.0f s" % (
            prop, tier, seed, judged, states, len(violations), time.time() - t0))
        return 1 if violations else 0
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    if "task" not in v:
        print(v["detail"])
        return 1
    work = tempfile.mkdtemp(prefix="s2wav-replay-")
    try:
        t = dict(v["task"], id=1)
        plan, trace = os.path.join(work, "plan.nd"), os.path.join(work, "trace.nd")
        write(plan, [t])
        execute(plan, trace, 600, work)
        bad = judge(v["property"], plan, trace, work)[0]
        print(json.dumps(trimmed(read(trace)[0])))
        print("fails:", sorted(bad.get(1, [])) or "nothing")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == "--replay" else run(sys.argv[1]))
    except Broken as b:
        print("MACHINERY: %s" % b)
        sys.exit(2)
