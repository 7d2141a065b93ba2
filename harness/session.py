"""Replays histories of Session.tla in one process and records, after every step, which
abstract value each live object holds."""
import os, pickle, random, hashlib, sys
from concurrent.futures import ThreadPoolExecutor
import threading
import numpy as np
from backends import *

SCRIBBLE = 7.25


def flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += flat(y)
        return out
    return [x]


def hosts(x):
    return [host(y) for y in flat(x)]


def in_child(fn):
    """fn() evaluated in a forked child: a process with no history."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            with os.fdopen(w, "wb") as fh:
                pickle.dump(fn(), fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def sig_flm(c, s):
    return rand_flm(c.replace(seed=c.seed * 10 + int(s) + (4 if c.J0 else 0) + c.L))


def block(c, name):
    """A building block of the filters and transforms, as a caller can ask for it."""
    g = (c.L, c.N, c.J0, c.lam)
    return dict(
        klam=lambda: F.k_lam(c.L, c.lam), dir=lambda: F.tiling_direction(c.L, c.N),
        dirj=lambda: F.tiling_direction_jax(c.L, c.N),
        axi=lambda: F.filters_axisym_vectorised(c.L, c.J0, c.lam),
        axil=lambda: F.filters_axisym(c.L, c.J0, c.lam),
        fltl=lambda: F.filters_directional(*g, c.spin),
        f0=lambda: S.construct_f(*g, c.smp, c.nside, True),
        lm0=lambda: S.construct_flm(c.L, c.J0, c.lam, True),
        lmn0=lambda: S.construct_flmn(*g, True))[name]()


def references(cfgs, need):
    out = {}
    for n in sorted(need):
        p = n.split(":")
        c = cfgs[p[1]]

        def one(p=p, c=c):
            if p[0] == "s": return hosts(to_map(sig_flm(c, p[2]), c))
            if p[0] == "l": return hosts(sig_flm(c, p[2]))
            if p[0] == "a": return hosts(block(c, p[2]))
            if p[0] == "f": return hosts(bank(c, "vec"))
            if p[0] == "k": return [np.array(x) for x in hosts(kernels(c, p[2] == "fwd"))]
            w, s = base.analysis(to_map(sig_flm(c, p[2]), c), c.L, c.N, c.J0, c.lam, spin=c.spin,
                                 sampling=c.smp, nside=c.nside, reality=c.real,
                                 multiresolution=True, scattering=False)
            if p[0] == "v": return hosts(w)
            if p[0] == "w": return hosts([w, s])
            if p[0] == "m": return [np.abs(x) for x in hosts(w)] + hosts(s)
        out[n] = in_child(one)
    return out


def same(xs, ref):
    if len(xs) != len(ref):
        return False
    m = max([float(np.abs(r).max()) if r.size else 0.0 for r in ref] + [1e-300])
    for x, r in zip(xs, ref):
        if tuple(x.shape) != tuple(r.shape):
            return False
        if x.size:
            d = np.abs(x - r)
            if not np.all(np.isfinite(d)) or d.max() > 1e-9 * m:
                return False
    return True


def classify(obj, refs, names):
    """The abstract values an observer cannot tell obj from."""
    xs = hosts(obj)
    if xs and all(np.all(x == SCRIBBLE) for x in xs):
        return ["scribbled"]
    return [n for n in names if same(xs, refs[n])]


def scribble(x):
    """Overwrite in place where the caller can; immutable arrays are rebound."""
    if isinstance(x, list):
        for i, y in enumerate(x):
            x[i] = scribble(y)
        return x
    if isinstance(x, tuple):
        return tuple(scribble(y) for y in x)
    if isinstance(x, torch.Tensor):
        try:
            with torch.no_grad():
                x.fill_(SCRIBBLE)
            return x
        except RuntimeError:
            return torch.full_like(x, SCRIBBLE)
    if isinstance(x, np.ndarray):
        try:
            x.flags.writeable = True
            x[...] = SCRIBBLE
            return x
        except ValueError:
            return np.full(x.shape, SCRIBBLE)
    return jnp.full(x.shape, SCRIBBLE)


def layout(f, x):
    f = np.array(f)
    if x == 1:
        big = np.zeros((2 * f.shape[0],) + f.shape[1:], dtype=f.dtype)
        big[::2] = f
        return big[::2]
    if x == 2:
        return np.asfortranarray(f)
    if x == 3:
        f.flags.writeable = False
    return f


def tt(x):
    if isinstance(x, torch.Tensor):
        return x
    x = host(x)
    return torch.from_numpy(x if x.flags.writeable else np.array(x))


def nn(x):
    return x if isinstance(x, np.ndarray) else host(x)


def jj(x):
    return x if isinstance(x, jax.Array) else jnp.asarray(host(x))


def process_state():
    st = np.random.get_state()
    return (hashlib.md5(st[1].tobytes()).hexdigest(), st[2],
            hashlib.md5(torch.random.get_rng_state().numpy().tobytes()).hexdigest(),
            hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
            str(torch.get_default_dtype()), torch.is_grad_enabled(), torch.get_num_threads(),
            bool(jax.config.jax_enable_x64), str(np.geterr()), os.getcwd(),
            hashlib.md5(repr(sorted(os.environ.items())).encode()).hexdigest())


def call_ana(bk, f, c, fl, ke):
    pos = (c.L, c.N, c.J0, c.lam)
    kw = dict(spin=c.spin, sampling=c.smp, reality=c.real)
    if bk in ("base", "loop"):
        fn = base.analysis if bk == "base" else base.analysis_looped
        return fn(nn(f), *pos, nside=c.nside, multiresolution=True, **kw)
    if fl is not None:
        kw["filters"] = fl
    if bk == "c": return wavelet_c.analysis(jj(f), *pos, **kw)
    if bk == "jax": return wavelet.analysis(jj(f), *pos, **kw)
    kw["precomps"] = ke
    if bk == "pre": return wavelet_precompute.analysis(jj(f), *pos, **kw)
    return wavelet_precompute_torch.analysis(tt(f), *pos, **kw)


def call_syn(bk, ws, c, fl, ke):
    w, s = ws
    pos = (c.L, c.N, c.J0, c.lam)
    kw = dict(spin=c.spin, sampling=c.smp, reality=c.real)
    if bk in ("base", "loop"):
        fn = base.synthesis if bk == "base" else base.synthesis_looped
        return fn([nn(x) for x in w], nn(s), *pos, nside=c.nside, multiresolution=True, **kw)
    if fl is not None:
        kw["filters"] = fl
    if bk == "c": return wavelet_c.synthesis([jj(x) for x in w], jj(s), *pos, **kw)
    if bk == "jax": return wavelet.synthesis([jj(x) for x in w], jj(s), *pos, **kw)
    kw["precomps"] = ke
    if bk == "pre": return wavelet_precompute.synthesis([jj(x) for x in w], jj(s), *pos, **kw)
    return wavelet_precompute_torch.synthesis([tt(x) for x in w], tt(s), *pos, **kw)


def call_flm(bk, flm, c, fl, ke):
    pos = (c.L, c.N, c.J0, None, c.lam)
    kw = dict(sampling=c.smp, reality=c.real)
    if fl is not None:
        kw["filters"] = fl[0]
    elif c.spin != 0:                      # the default filters are those of spin 0
        kw["filters"] = bank(c, "vectorch" if bk == "torch" else "vec")[0]
    if bk == "c": return wavelet_c.flm_to_analysis(jj(flm), *pos, **kw)
    if bk == "jax": return wavelet.flm_to_analysis(jj(flm), *pos, **kw)
    kw["precomps"] = ke
    if bk == "pre": return wavelet_precompute.flm_to_analysis(jj(flm), *pos, **kw)
    return wavelet_precompute_torch.flm_to_analysis(tt(flm), *pos, **kw)


def transform(bk, obj, c, ke):
    """Analysis of a signal, synthesis of coefficients."""
    if isinstance(obj, (list, tuple)):
        return call_syn(bk, obj, c, None, ke)
    return call_ana(bk, obj, c, None, ke)


def together(jobs, rounds):
    """All jobs at once, each in its own thread, `rounds` times over."""
    bar = threading.Barrier(len(jobs))

    def go(job):
        out = []
        for _ in range(rounds):
            try:
                bar.wait(60)
            except threading.BrokenBarrierError:   # another thread has failed
                break
            try:
                out.append(job())
            except BaseException:
                bar.abort()
                raise
        return out or [job()]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with ThreadPoolExecutor(len(jobs)) as ex:
            futures = [ex.submit(go, j) for j in jobs]
            return [f.result() for f in futures]
    finally:
        sys.setswitchinterval(old)


def in_thread(fn, limit=None):
    box = {}

    def go():
        try:
            box["v"] = fn()
        except BaseException as e:
            box["e"] = e
    th = threading.Thread(target=go)
    th.start()
    th.join(limit)
    return th, box


def lines_of(fn, at=None, then=None):
    """Runs fn in a thread; every source line of the package it executes is a point at
    which it can be suspended.  At point number `at` the thread stops, `then` runs to its
    end in another thread (or blocks, in which case fn is resumed first)."""
    seen, side = [], {}

    def line(frame, event, arg):
        if event == "line":
            seen.append((frame.f_code.co_filename, frame.f_lineno))
            if at is not None and len(seen) == at:
                side["t"], side["b"] = in_thread(then, 20)
        return line

    def call(frame, event, arg):
        return line if "/s2wav/" in frame.f_code.co_filename else None

    def go():
        sys.settrace(call)
        try:
            return fn()
        finally:
            sys.settrace(None)
    th, box = in_thread(go)
    if "t" in side:
        side["t"].join()
    return seen, box, side.get("b")


def spread(xs, n):
    return xs if len(xs) <= n else [xs[(k * len(xs)) // n] for k in range(n)]


def preempted(fa, fb, limit):
    fa(), fb()
    seen, box, _ = lines_of(fa)
    if "e" in box:
        raise box["e"]
    first, last = {}, {}
    for i, p in enumerate(seen):
        first.setdefault(p, i + 1)
        last[p] = i + 1
    # first and last visit of every line; the transforms' own lines before the helpers'
    near = sorted({d[p] for d in (first, last) for p in d if "/transforms/" in p[0]})
    far = sorted({d[p] for d in (first, last) for p in d} - set(near))
    points = spread(near, limit)
    points += spread(far, max(2, limit - len(points)))
    ra, rb = [box["v"]], []
    for p in points:
        _, a, b = lines_of(fa, p, fb)
        for x, r in ((a, ra), (b, rb)):
            if x is None:                       # the point was not reached this time
                continue
            if "e" in x:
                raise x["e"]
            r.append(x["v"])
    return ra, rb or [fb()]


def k_sess(t):
    cfgs = {"a": Cfg(t["a"]), "b": Cfg(t["b"])}
    names = set()
    for n in ("a", "b"):
        for s in ("1", "2"):
            names |= {"s:%s:%s" % (n, s), "w:%s:%s" % (n, s)}
    for o in t["hist"]:
        if o["op"] == "flt": names.add("f:" + o["c"])
        if o["op"] == "aux": names.add("a:%s:%s" % (o["c"], o["s"]))
        if o["op"] == "ker": names.add("k:%s:%s" % (o["c"], o["s"]))
        if o["op"] == "scat": names |= {"m:%s:%s" % (o["c"], s) for s in "12"}
        if o["op"] in ("lmn", "flm"):
            names |= {"%s:%s:%s" % (k, o["c"], s) for s in "12" for k in "lv"}
    refs = references(cfgs, names)
    order = sorted(names)
    objs, steps, cfg_of = [], [], []
    g0 = process_state()
    for o in t["hist"]:
        c = cfgs[o["c"]]
        h = objs[o["h"] - 1] if o["h"] else None
        fl = objs[o["f"] - 1] if o["f"] else None
        ke = objs[o["k"] - 1] if o["k"] else None
        err, new, many = "", [], []
        try:
            if o["op"] == "sig": new = [layout(to_map(sig_flm(c, o["s"]), c), o["x"])]
            elif o["op"] == "lmn": new = [sig_flm(c, o["s"])]
            elif o["op"] == "aux": new = [block(c, o["s"])]
            elif o["op"] == "flt": new = [bank(c, "vectorch" if o["bk"] == "torch" else "vec")]
            elif o["op"] == "ker": new = [kernels(c, o["s"] == "fwd", o["bk"] == "torch")]
            elif o["op"] == "ana": new = [call_ana(o["bk"], h, c, fl, ke)]
            elif o["op"] == "syn": new = [call_syn(o["bk"], h, c, fl, ke)]
            elif o["op"] == "flm": new = [call_flm(o["bk"], h, c, fl, ke)]
            elif o["op"] == "scat":
                new = [base.analysis(nn(h), c.L, c.N, c.J0, c.lam, spin=c.spin, sampling=c.smp,
                                     nside=c.nside, reality=c.real, multiresolution=True,
                                     scattering=True)]
            elif o["op"] == "par":
                many = together([lambda: call_ana(o["bk"], h, c, fl, ke)] * o["x"], 2)
            elif o["op"] == "mix":
                g = objs[o["g"] - 1]
                cg = cfgs[cfg_of[o["g"] - 1]]
                many = together([(lambda: transform(o["bk"], h, c, ke)) if i % 2 == 0 else
                                 (lambda: transform(o["bk"], g, cg, ke)) for i in range(o["x"])], 2)
            elif o["op"] == "sched":
                g = objs[o["g"] - 1]
                cg = cfgs[cfg_of[o["g"] - 1]]
                many = preempted(lambda: transform(o["bk"], h, c, ke),
                                 lambda: transform(o["bk"], g, cg, ke), o["x"])
            elif o["op"] == "scribble":
                objs[o["h"] - 1] = scribble(h)
            elif o["op"] == "reject":
                z = np.zeros(to_map(sig_flm(c, "1"), c).shape)
                bad = -1 if o["x"] == 0 else jmax_of(c.L, c.p, c.q)
                call_ana(o["bk"], z, c.replace(J0=bad), None, None)
        except Exception as e:
            err = type(e).__name__
        # of several runs one result is kept; what all of them are is recorded now
        new += [r[0] for r in many]
        if not err:
            cfg_of += [o["c"] if o["op"] not in ("mix", "sched") else
                       (o["c"] if i % 2 == 0 else cfg_of[o["g"] - 1]) for i in range(len(new))]
        objs += new
        vals = [classify(x, refs, order) for x in objs]
        for i, runs in enumerate(many):
            v = len(objs) - len(many) + i
            for x in runs[1:]:
                k = classify(x, refs, order)
                vals[v] = [n for n in vals[v] if n in k]
        steps.append(dict(err=err, vals=vals,
                          glob="same" if process_state() == g0 else "changed"))
        if err and o["op"] != "reject":
            break
    return dict(steps=steps)
