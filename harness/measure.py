"""One function per kind of task.  Each runs the real code through its public API and
returns integers (fixed point, or multiples of 1e-12), strings and lists only: the event
that the specification then judges.  Nothing here decides a verdict."""
import inspect
import numpy as np
from backends import *

PI = np.pi


def ename(e):
    return type(e).__name__


def shape(x):
    return [int(n) for n in x.shape]


def scale_of(ws):
    m = max([float(np.max(np.abs(host(w)))) for w in ws] + [0.0])
    return m if m > 0 else 1.0


def coef_residuals(a, b):
    """Per-array residual of two coefficient sets relative to the largest coefficient."""
    wa, sa = a
    wb, sb = b
    if len(wa) != len(wb):
        raise ValueError("number of scales")
    m = scale_of(list(wa) + [sa])
    return [i12(maxdiff(x, y) / m) for x, y in zip(wa, wb)] + [i12(maxdiff(sa, sb) / m)]


# ----------------------------------------------------------- reconstruction
def k_rt(t):
    c = Cfg(t)
    flm = rand_flm(c)
    f = to_map(flm, c)
    if t.get("dtype") == "c" and c.real:
        f = f.astype(np.complex128)
    w, s = analyse(t["bk"], f, c)
    r = synthesise(t["bk"], w, s, c)
    return dict(shp=shape(r), res=i12(maxdiff(r, f) / np.abs(f).max()),
                wsh=[shape(x) for x in w], ssh=shape(s))


# ------------------------------------------------------ agreement: analysis
def k_ana(t):
    c = Cfg(t)
    f = to_map(rand_flm(c), c)
    ref = analyse(t["ref"], f, c)
    errs, ress = [], []
    for b in t["bks"]:
        try:
            ress.append(coef_residuals(ref, analyse(b, f, c)))
            errs.append("")
        except Exception as e:
            errs.append(ename(e)); ress.append([BAD])
    return dict(errs=errs, ress=ress)


def rand_coefs(c, zero=()):
    """Arbitrary band-limited coefficients: not the analysis of any signal."""
    rng = np.random.default_rng(c.seed * 77 + 5)
    ws = []
    for j in n_scales(c):
        Lj, Nj = band(c, j)
        W = rng.standard_normal((2 * Nj - 1, Lj, 2 * Lj - 1)) + 1j * rng.standard_normal(
            (2 * Nj - 1, Lj, 2 * Lj - 1))
        for n in range(-Nj + 1, Nj):
            for l in range(Lj):
                for m in range(-Lj + 1, Lj):
                    if abs(m) > l or abs(n) > l:
                        W[Nj - 1 + n, l, Lj - 1 + m] = 0
        if c.real:
            V = W.copy()
            for n in range(-Nj + 1, Nj):
                for m in range(-Lj + 1, Lj):
                    V[Nj - 1 - n, :, Lj - 1 - m] = (-1) ** (m + n) * np.conj(
                        W[Nj - 1 + n, :, Lj - 1 + m])
            W = (W + V) / 2
        if j in zero:
            W = W * 0
        ws.append(wig_inv(W, Lj, Nj, c))
    if c.sig == "imag" and not c.real:             # coefficients without a real part
        ws = [1j * np.real(w) for w in ws]
    Ls = scal_L(c)
    cs = c.replace(L=Ls, sig="rand", seed=c.seed + 1)
    flm = rand_flm(cs)
    s = to_map(flm, cs, Ls)
    if c.sig == "imag" and not c.real and c.spin == 0:
        s = 1j * np.real(s)
    if c.sig in ("zonal", "low"):                  # one scale, no scaling coefficients
        keep = c.seed % len(ws)
        ws = [w if k == keep else 0 * w for k, w in enumerate(ws)]
        s = 0 * s
    elif c.sig == "steep":
        ws = [w * 10.0 ** (-3 * ((k + c.seed) % 3)) for k, w in enumerate(ws)]
        s = s * 10.0 ** (-3 * (c.seed % 2))
    elif c.sig == "top":                           # scaling coefficients only
        ws = [0 * w for w in ws]
    return ws, s


# ----------------------------------------------------- agreement: synthesis
def k_syn(t):
    c = Cfg(t)
    w, s = rand_coefs(c)
    ref = synthesise(t["ref"], w, s, c)
    m = scale_of([ref])
    errs, ress = [], []
    for b in t["bks"]:
        try:
            ress.append([i12(maxdiff(ref, synthesise(b, w, s, c)) / m)])
            errs.append("")
        except Exception as e:
            errs.append(ename(e)); ress.append([BAD])
    return dict(errs=errs, ress=ress)


# ----------------------------------------- exact harmonic action of analysis
def k_gain(t):
    c = Cfg(t)
    flm = rand_flm(c)
    f = to_map(flm, c)
    w, s = analyse(t["bk"], f, c)
    L = c.L
    rows, spread = [], []
    for j in n_scales(c):
        Lj, Nj = band(c, j)
        W = wig_fwd(w[j - c.J0], Lj, Nj, c)
        rj, sp = [], 0.0
        for l in range(Lj):
            u = np.sqrt(8 * PI**2 / (2 * l + 1))
            den = flm[l, L - 1 - l: L + l]
            den = np.where(den == 0, 1.0, den) * u
            for n in range(-Nj + 1, Nj):
                g = W[Nj - 1 + n, l, Lj - 1 - l: Lj + l] / den
                mu = g.mean()
                sp = max(sp, float(np.abs(g - mu).max())) if np.all(np.isfinite(g)) else np.inf
                rj.append([l, n, fx(mu.real), fx(mu.imag)])
        rows.append(rj); spread.append(i12(sp))
    Ls = scal_L(c)
    cs = c.replace(L=Ls)
    slm = to_flm(s, cs, Ls)
    rs, sp = [], 0.0
    for l in range(Ls):
        den = flm[l, L - 1 - l: L + l]
        g = slm[l, Ls - 1 - l: Ls + l] / np.where(den == 0, 1.0, den)
        mu = g.mean()
        sp = max(sp, float(np.abs(g - mu).max())) if np.all(np.isfinite(g)) else np.inf
        rs.append([l, fx(mu.real), fx(mu.imag)])
    return dict(rows=rows, spread=spread, srows=rs, sspread=i12(sp))


# ---------------------------------------- exact harmonic action of synthesis
def k_syngain(t):
    c = Cfg(t)
    L = c.L
    rng = np.random.default_rng(c.seed * 3 + 1)
    zero_w = []
    for j in n_scales(c):
        Lj, Nj = band(c, j)
        zero_w.append(np.zeros([2 * Nj - 1] + list(to_shape(Lj, c)), dtype=np.complex128))
    Ls = scal_L(c)
    zero_s = np.zeros(to_shape(Ls, c), dtype=np.complex128)
    rows, spread, leak = [], [], []
    for j in n_scales(c):
        Lj, Nj = band(c, j)
        got, lk = {}, 0.0
        for shift in range(min(t.get("shifts", 2), 2 * Nj - 1)):
            W = np.zeros((2 * Nj - 1, Lj, 2 * Lj - 1), dtype=np.complex128)
            src = {}
            for l in range(Lj):
                for m in range(-l, l + 1):
                    n = (m + l + shift) % (2 * Nj - 1) - (Nj - 1)
                    if abs(n) > l:
                        continue
                    a = np.exp(2j * PI * rng.random()) * (0.5 + rng.random())
                    W[Nj - 1 + n, l, Lj - 1 + m] = a
                    src[l, m] = (n, a)
            if c.sig == "imag":                    # one orientation per order, values i or 1 times reals
                W, src = W * 0, {}
                for l in range(Lj):
                    for m in range(l + 1):
                        n = (m + l + shift) % (2 * Nj - 1) - (Nj - 1) if m else 0
                        if abs(n) > l:
                            continue
                        a = np.exp(2j * PI * rng.random()) * (0.5 + rng.random())
                        b = (-1) ** (m + n) * np.conj(a)
                        if m == 0:
                            a = b = a.real
                        src[l, m], src[l, -m] = (n, a), (-n, b)
                        W[Nj - 1 + n, l, Lj - 1 + m], W[Nj - 1 - n, l, Lj - 1 - m] = a, b
                u = 1j if shift % 2 == 0 else 1.0
                src = {k: (n, u * a) for k, (n, a) in src.items()}
                wj = u * np.real(wig_inv(W, Lj, Nj, c.replace(real=False))).astype(np.complex128)
            else:
                wj = wig_inv(W, Lj, Nj, c.replace(real=False))
            w = list(zero_w)
            w[j - c.J0] = wj
            r = synthesise(t["bk"], w, zero_s, c)
            flm = to_flm(r, c)
            for l in range(L):
                for m in range(-l, l + 1):
                    v = flm[l, L - 1 + m]
                    if (l, m) in src:
                        n, a = src[l, m]
                        got.setdefault((l, n), []).append(
                            v / (a * np.sqrt((2 * l + 1) / (8 * PI**2))))
                    else:
                        lk = max(lk, abs(v)) if np.isfinite(v) else np.inf
        rj, sp = [], 0.0
        for (l, n), g in sorted(got.items()):
            g = np.array(g); mu = g.mean()
            sp = max(sp, float(np.abs(g - mu).max())) if np.all(np.isfinite(g)) else np.inf
            rj.append([l, n, fx(mu.real), fx(mu.imag)])
        rows.append(rj); spread.append(i12(sp)); leak.append(i12(lk))
    # scaling coefficients alone
    cs = c.replace(L=Ls, sig="rand")
    slm = rand_flm(cs) if Ls > abs(c.spin) else np.zeros((Ls, 2 * Ls - 1), complex)
    s = to_map(slm, cs, Ls) if Ls > abs(c.spin) else zero_s
    flm = to_flm(synthesise(t["bk"], zero_w, s, c), c)
    rs, sp, lk = [], 0.0, 0.0
    for l in range(L):
        v = flm[l, L - 1 - l: L + l]
        if l < Ls and l >= abs(c.spin):
            g = v / slm[l, Ls - 1 - l: Ls + l]
            mu = g.mean()
            sp = max(sp, float(np.abs(g - mu).max())) if np.all(np.isfinite(g)) else np.inf
            rs.append([l, fx(mu.real), fx(mu.imag)])
        else:
            lk = max(lk, float(np.abs(v).max())) if np.all(np.isfinite(v)) else np.inf
    return dict(rows=rows, spread=spread, leak=leak, srows=rs, sspread=i12(sp), sleak=i12(lk))


def to_shape(L, c):
    if c.smp == "healpix":
        return (12 * c.nside**2,)
    return {"mw": (L, 2 * L - 1), "mwss": (L + 1, 2 * L),
            "dh": (2 * L, 2 * L - 1), "gl": (L, 2 * L - 1)}[c.smp]


# -------------------------------------------------------------------- energy
def k_energy(t):
    c = Cfg(t)
    flm = rand_flm(c)
    f = to_map(flm, c)
    tot = float((np.abs(flm) ** 2).sum())
    w, s = analyse(t["bk"], f, c)
    es = []
    for j in n_scales(c):
        Lj, Nj = band(c, j)
        W = wig_fwd(w[j - c.J0], Lj, Nj, c)
        wt = (2 * np.arange(Lj) + 1) / (8 * PI**2)
        es.append(float(np.einsum("nlm,l->", np.abs(W) ** 2, wt)) / tot)
    Ls = scal_L(c)
    e0 = float((np.abs(to_flm(s, c.replace(L=Ls), Ls)) ** 2).sum()) / tot
    pl = (np.abs(flm) ** 2).sum(axis=1) / tot
    return dict(es=[fx(e) for e in es], e0=fx(e0), pl=[fx(x) for x in pl],
                res=i12(abs(sum(es) + e0 - 1)))


# ------------------------------------------------------------------- reality
def k_real(t):
    c = Cfg(t).replace(real=True, spin=0)
    f = np.real(to_map(rand_flm(c), c))
    bk = t["bk"]
    wr, sr = analyse(bk, f, c)
    cc = c.replace(real=False)
    wc, sc = analyse(bk, f.astype(np.complex128), cc)
    m = scale_of(list(wc) + [sc])
    same = [i12(maxdiff(a, b) / m) for a, b in zip(wr, wc)] + [i12(maxdiff(sr, sc) / m)]
    imag = [i12(np.abs(np.imag(host(x))).max() / m) for x in list(wr) + [sr] + list(wc) + [sc]]
    # synthesis from arbitrary real coefficients
    w, s = rand_coefs(c)
    w, s = [np.real(x) for x in w], np.real(s)
    rr = synthesise(bk, w, s, c)
    rc = synthesise(bk, [x.astype(np.complex128) for x in w], s.astype(np.complex128), cc)
    k = scale_of([rc])
    return dict(same=same, imag=imag, syn=i12(maxdiff(rr, rc) / k),
                synimag=i12(max(np.abs(np.imag(host(rr))).max(), np.abs(np.imag(host(rc))).max()) / k))


# ------------------------------------------------------------ flm_to_analysis
def k_flm(t):
    c = Cfg(t)
    flm = rand_flm(c)
    f = to_map(flm, c)
    # the reference is the wavelet part of the backend's own analysis, where it has one
    ref, _ = analyse(t["ref"], f, c)
    m = max(scale_of(ref), float(np.abs(f).max()))
    jm = t["jmax"]
    J = jm if jm >= 0 else jmax_of(c.L, c.p, c.q)
    errs, ress, cnt = [], [], []
    for b in t["bks"]:
        try:
            kw = {}
            if t.get("nosph") and b in ("pre", "torch"):
                kw["pre"] = kernels(c, False, b == "torch", nospherical=True)
            w = flm_analyse(b, flm, c, jm if jm >= 0 else None, **kw)
            cnt.append(len(w))
            ress.append([i12(maxdiff(x, y) / m) for x, y in zip(w, ref[: J - c.J0 + 1])])
            errs.append("")
        except Exception as e:
            errs.append(ename(e)); ress.append([BAD]); cnt.append(-1)
    return dict(errs=errs, ress=ress, cnt=cnt)


# ----------------------------------------------------- precomputes / defaults
def k_pre(t):
    c = Cfg(t)
    bk = t["bk"]
    f = to_map(rand_flm(c), c)
    flm = rand_flm(c)
    out = {}
    tf = bk == "torch"
    fl = bank(c, "vectorch" if tf else "vec")
    if bk == "jax":
        pa = construct.generate_wigner_precomputes(
            c.L, c.N, c.J0, c.lam, c.smp, c.nside, False, c.real)
        ps = construct.generate_wigner_precomputes(
            c.L, c.N, c.J0, c.lam, c.smp, c.nside, True, c.real)
        out["nk"] = [len(pa), len(ps)]
    elif bk == "c":
        pa = ps = DEFAULT
        out["nk"] = []
    else:
        pa, ps = kernels(c, False, tf), kernels(c, True, tf)
        out["nk"] = [len(pa[2]), len(ps[2])]
    a1 = analyse(bk, f, c, fl, pa)
    a2 = analyse(bk, f, c, fl, None if bk == "jax" else pa)       # precomputes omitted
    a3 = analyse(bk, f, c, None, pa)                              # filters omitted
    a4 = analyse("base", f, c)
    out["ana"] = [max(coef_residuals(a1, x)) for x in (a2, a3, a4)]
    m = scale_of([f])
    w, s = a1
    r1 = synthesise(bk, w, s, c, fl, ps)
    r2 = synthesise(bk, w, s, c, fl, None if bk == "jax" else ps)
    r3 = synthesise(bk, w, s, c, None, ps)
    out["syn"] = [i12(maxdiff(r1, x) / m) for x in (r2, r3, f)]
    if c.spin == 0:
        q1 = flm_analyse(bk, flm, c, None, fl[0], pa)
        q2 = flm_analyse(bk, flm, c, None, None, pa)
        mm = max(scale_of(w), m)
        qs = [q1, q2]
        if bk == "pre" and "_precomp_shift" in inspect.signature(wavelet_precompute.flm_to_analysis).parameters:
            # the kernel of the highest scale spelled out instead of shared
            dup = (pa[0], pa[1], list(pa[2]) + [pa[2][-1]])
            qs.append(wavelet_precompute.flm_to_analysis(
                jnp.asarray(flm), c.L, c.N, c.J0, None, c.lam, sampling=c.smp, nside=c.nside,
                reality=c.real, filters=fl[0], precomps=dup, _precomp_shift=False))
        out["flm"] = [i12(max(maxdiff(x, y) for x, y in zip(w, q)) / mm) for q in qs]
    else:
        out["flm"] = []
    return out


def k_defs(t):
    """Calls that leave every optional argument out, against the same calls spelled out:
    N=1, J_min=0, lam=2, spin=0, MW sampling, complex signal; multiresolution in the
    transforms, full resolution in samples."""
    c = Cfg(t)
    L = c.L
    flm = rand_flm(c)
    f = to_map(flm, c)
    full = (L, 1, 0, 2.0)
    names, res = [], []

    def both(name, a, b):
        a, b = flat_(a()), flat_(b())
        if len(a) != len(b):
            r = BAD
        else:
            m = max([float(np.abs(host(x)).max()) if host(x).size else 0.0 for x in b] + [1e-300])
            try:
                r = i12(max([maxdiff(x, y) for x, y in zip(a, b)] + [0.0]) / m)
            except ValueError:
                r = BAD
        names.append(name); res.append(r)
    kw = dict(spin=0, sampling="mw", reality=False)
    w, s = analyse("base", f, c)
    jf, jl = jnp.asarray(f), jnp.asarray(flm)
    jw, js = [jnp.asarray(x) for x in w], jnp.asarray(s)
    fj = bank(c)
    both("base.analysis", lambda: base.analysis(f, L),
         lambda: base.analysis(f, *full, spin0=0, nside=None, multiresolution=True, scattering=False, **kw))
    both("base.analysis_looped", lambda: base.analysis_looped(f, L),
         lambda: base.analysis_looped(f, *full, spin0=0, nside=None, multiresolution=True, **kw))
    both("base.synthesis", lambda: base.synthesis(w, s, L),
         lambda: base.synthesis(w, s, *full, spin0=0, nside=None, multiresolution=True, **kw))
    both("base.synthesis_looped", lambda: base.synthesis_looped(w, s, L, 1),
         lambda: base.synthesis_looped(w, s, *full, spin0=0, nside=None, multiresolution=True, **kw))
    both("c.analysis", lambda: wavelet_c.analysis(jf, L), lambda: wavelet_c.analysis(jf, *full, filters=fj, **kw))
    both("c.synthesis", lambda: wavelet_c.synthesis(jw, js, L),
         lambda: wavelet_c.synthesis(jw, js, *full, filters=fj, **kw))
    both("c.flm", lambda: wavelet_c.flm_to_analysis(jl, L),
         lambda: wavelet_c.flm_to_analysis(jl, L, 1, 0, None, 2.0, sampling="mw", reality=False, filters=fj[0]))
    both("jax.analysis", lambda: wavelet.analysis(jf, L),
         lambda: wavelet.analysis(jf, *full, nside=None, filters=fj, **kw))
    both("jax.synthesis", lambda: wavelet.synthesis(jw, js, L),
         lambda: wavelet.synthesis(jw, js, *full, nside=None, filters=fj, **kw))
    both("jax.flm", lambda: wavelet.flm_to_analysis(jl, L),
         lambda: wavelet.flm_to_analysis(jl, L, 1, 0, None, 2.0, sampling="mw", nside=None, reality=False, filters=fj[0]))
    kj = construct.generate_full_precomputes(L, 1)
    both("kernels", lambda: kj, lambda: construct.generate_full_precomputes(
        L, 1, 0, 2.0, "mw", None, False, False, False, False))
    both("wigner-precomputes", lambda: construct.generate_wigner_precomputes(L, 1),
         lambda: construct.generate_wigner_precomputes(L, 1, 0, 2.0, "mw", None, False, False, False))
    both("pre.analysis", lambda: wavelet_precompute.analysis(jf, L, precomps=kj),
         lambda: wavelet_precompute.analysis(jf, *full, nside=None, filters=fj, precomps=kj, **kw))
    both("pre.flm", lambda: wavelet_precompute.flm_to_analysis(jl, L, precomps=kj),
         lambda: wavelet_precompute.flm_to_analysis(jl, L, 1, 0, None, 2.0, sampling="mw", nside=None,
                                                    reality=False, filters=fj[0], precomps=kj))
    kt = construct.generate_full_precomputes(L, 1, using_torch=True)
    ft, tl = torch.from_numpy(np.array(f)), torch.from_numpy(np.array(flm))
    bt = bank(c, "vectorch")
    both("torch.analysis", lambda: wavelet_precompute_torch.analysis(ft, L, precomps=kt),
         lambda: wavelet_precompute_torch.analysis(ft, *full, nside=None, filters=bt, precomps=kt, **kw))
    both("torch.flm", lambda: wavelet_precompute_torch.flm_to_analysis(tl, L, precomps=kt),
         lambda: wavelet_precompute_torch.flm_to_analysis(tl, L, 1, 0, None, 2.0, sampling="mw", nside=None,
                                                          reality=False, filters=bt[0], precomps=kt))
    for n in ("filters_directional", "filters_directional_vectorised", "filters_directional_jax"):
        both(n, lambda: getattr(F, n)(L), lambda: getattr(F, n)(*full, 0, 0))
    for n in ("filters_axisym", "filters_axisym_vectorised", "filters_axisym_jax"):
        both(n, lambda: getattr(F, n)(L), lambda: getattr(F, n)(L, 0, 2.0))
    for n in ("tiling_direction", "tiling_direction_jax"):
        both(n, lambda: getattr(F, n)(L), lambda: getattr(F, n)(L, 1))
    for n in ("k_lam", "k_lam_jax"):
        both(n, lambda: getattr(F, n)(L), lambda: getattr(F, n)(L, 2.0))
    both("construct_f", lambda: S.construct_f(L), lambda: S.construct_f(*full, "mw", None, False, False))
    both("construct_flmn", lambda: S.construct_flmn(L), lambda: S.construct_flmn(*full, False, False))
    both("construct_flm", lambda: S.construct_flm(L), lambda: S.construct_flm(L, 0, 2.0, False))
    both("construct_flm_jax", lambda: S.construct_flm_jax(L), lambda: S.construct_flm_jax(L, 0, 2.0, False))
    both("construct_flmn_jax", lambda: S.construct_flmn_jax(L), lambda: S.construct_flmn_jax(L, 1, 0, None, 2.0, False))
    both("construct_flmn_torch", lambda: S.construct_flmn_torch(L), lambda: S.construct_flmn_torch(L, 1, 0, None, 2.0, False))
    ints = lambda x: [np.array(x, float)]
    both("f_scal", lambda: ints(S.f_scal(L)), lambda: ints(S.f_scal(L, 0, 2.0, "mw", None, False)))
    both("n_wav_scales", lambda: ints(S.n_wav_scales(L)), lambda: ints(S.n_wav_scales(*full)))
    both("j_max", lambda: ints(S.j_max(L)), lambda: ints(S.j_max(L, 2.0)))
    both("LN_j", lambda: ints(S.LN_j(L, 1)), lambda: ints(S.LN_j(L, 1, 1, 2.0, False)))
    both("f_wav_j", lambda: ints(S.f_wav_j(L, 1)), lambda: ints(S.f_wav_j(L, 1, 1, 2.0, "mw", None, False)))
    both("scal_bandlimit", lambda: ints(S.scal_bandlimit(L)), lambda: ints(S.scal_bandlimit(L, 0, 2.0, False)))
    both("wav_j_bandlimit", lambda: ints(S.wav_j_bandlimit(L, 1)), lambda: ints(S.wav_j_bandlimit(L, 1, 2.0, False)))
    return dict(names=names, res=res)


def flat_(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat_(y)]
    return [x]


def k_kern(t):
    """Wigner kernels: count, shape agreement torch/JAX, independence of the spherical part."""
    c = Cfg(t)
    out = dict(nk=[], res=[], sph=[])
    for fw in (False, True):
        kj = kernels(c, fw)
        kt = kernels(c, fw, True)
        kn = kernels(c, fw, nospherical=True)
        out["nk"].append([len(kj[2]), len(kt[2]), len(kn[2])])
        out["res"].append(i12(max([maxdiff(a, b) for a, b in zip(kj[2], kt[2])] +
                                  [maxdiff(a, b) for a, b in zip(kj[2], kn[2])] +
                                  [maxdiff(kj[0], kt[0]), maxdiff(kj[1], kt[1])])))
        out["sph"].append([len(kn[0]), len(kn[1])])
    return out


# ------------------------------------------------------------------ filters
def k_bank(t):
    c = Cfg(t)
    psi, phi = [host(x) for x in bank(c, t["impl"])]
    L, N = c.L, c.N
    out = dict(psh=shape(psi), fsh=shape(phi),
               finite=int(np.all(np.isfinite(psi)) and np.all(np.isfinite(phi))))
    l = np.arange(L)
    a = np.abs(psi) ** 2 * (8 * PI**2 / (2 * l + 1))[None, :, None]
    prof = a.sum(axis=2)
    ph2 = np.abs(phi) ** 2 * 4 * PI / (2 * l + 1)
    tot = prof.sum(axis=0) + ph2
    out["one"] = [i12(abs(x - 1)) for x in tot]
    out["zero"] = [i12(abs(x)) for x in tot]
    out["prof"] = [[fx(x) for x in r] for r in prof]
    out["phi2"] = [fx(x) for x in ph2]
    out["phineg"] = i12(max(0.0, float((-np.real(phi)).max())))
    return out


def k_dir(t):
    """Directional component, as ratios inside one degree of the strongest scale."""
    c = Cfg(t)
    psi, _ = [host(x) for x in bank(c, t["impl"])]
    L, N = c.L, c.N
    rows, off, neg, outside, uni = [], 0.0, 0.0, 0.0, 0.0
    nu = 1.0 if t["phase"] == "re" else 1j
    a = np.abs(psi) ** 2
    for l in range(L):
        tot = a[:, l, :].sum(axis=1)
        j = int(np.argmax(tot))
        if tot[j] == 0:
            rows.append([l, []]); continue
        g = psi[j, l] / np.sqrt(tot[j])
        h = g / nu
        off = max(off, float(np.abs(h.imag).max()))
        neg = max(neg, float((-h.real).max()))
        M = min(l, N + 1)
        rows.append([l, [fx(abs(g[L - 1 + m]) ** 2) for m in range(-M, M + 1)]])
        rest = np.abs(g).copy(); rest[L - 1 - M: L + M] = 0
        outside = max(outside, float(rest.max()))
        # the directional split is the same at every scale
        for jj in range(psi.shape[0]):
            if tot[jj] > 1e-6 * tot[j]:
                uni = max(uni, float(np.abs(psi[jj, l] / np.sqrt(tot[jj]) - g).max()))
    return dict(rows=rows, off=i12(off), neg=i12(neg), outside=i12(outside), uni=i12(uni))


def k_tdir(t):
    """The directional component on its own, not normalised here."""
    L, N = t["L"], t["N"]
    a = host((F.tiling_direction if t["impl"] == "np" else F.tiling_direction_jax)(L, N))
    nu = 1.0 if t["phase"] == "re" else 1j
    h = a / nu
    rows, outside = [[0, []]], 0.0
    for l in range(1, L):
        M = min(l, N + 1)
        rows.append([l, [fx(abs(a[l, L - 1 + m]) ** 2) for m in range(-M, M + 1)]])
        rest = np.abs(a[l]).copy(); rest[L - 1 - M: L + M] = 0
        outside = max(outside, float(rest.max()))
    ok = np.all(np.isfinite(a)) and a.shape == (L, 2 * L - 1)
    return dict(rows=rows, outside=i12(outside), uni=0 if ok else BAD,
                off=i12(float(np.abs(h.imag).max())), neg=i12(max(0.0, float((-h.real).max()))))


def k_binom(t):
    fn = S.binomial_coefficient if t["impl"] == "np" else S.binomial_coefficient_jax
    at = lambda n, k: float(host(fn(n, k)))
    rows = [[int(round(at(n, k))) for k in range(n + 1)] for n in range(29)]
    pascal = []
    for n in (1, 2, 3, 10, 28, 29, 40, 64, 100, 150):
        c = [at(n, k) for k in range(n + 1)]
        b = [at(n - 1, k) for k in range(n)]
        pascal.append(i12(max(abs(c[k] - (b[k - 1] if k else 0) - (b[k] if k < n else 0)) / c[k]
                              for k in range(n + 1))))
    return dict(rows=rows, pascal=pascal)


def k_banks(t):
    """All implementations of the filter bank against each other."""
    c = Cfg(t)
    ref = [host(x) for x in bank(c, t["ref"])]
    m = max(scale_of([ref[0]]), scale_of([ref[1]]))
    errs, ress, shp = [], [], []
    for b in t["impls"]:
        try:
            x = bank(c, b)
            ress.append([i12(maxdiff(x[0], ref[0]) / m), i12(maxdiff(x[1], ref[1]) / m)])
            shp.append([shape(x[0]), shape(x[1])])
            errs.append("")
        except Exception as e:
            errs.append(ename(e)); ress.append([BAD]); shp.append([[], []])
    ax, axe = [], []
    try:
        a = F.filters_axisym(c.L, c.J0, c.lam)
        for fn in (F.filters_axisym_vectorised, F.filters_axisym_jax):
            b = fn(c.L, c.J0, c.lam)
            ax.append(i12(max(maxdiff(a[0], b[0]), maxdiff(a[1], b[1]))))
    except Exception as e:
        ax.append(BAD)
    low = [lowering(c, b) for b in ([t["ref"]] + t["impls"])[:2]] if c.spin0 else []
    return dict(errs=errs, ress=ress, shp=shp, ax=ax, low=low)


def lowering(c, impl):
    """How spin0 scales the filters of each degree, relative to spin0 = 0:
    [l, sign, first factor in 1/1000 (first degree only), ratio to the previous degree]."""
    a = [host(x) for x in bank(c, impl)]
    z = [host(x) for x in bank(c.replace(spin0=0), impl)]
    em = max(abs(c.spin), abs(c.spin0))
    rows, prev = [], None
    for l in range(em, c.L):
        best = max([(abs(z[1][l]), z[1][l], a[1][l])] +
                   [(abs(z[0][j, l, m]), z[0][j, l, m], a[0][j, l, m])
                    for j in range(z[0].shape[0]) for m in range(z[0].shape[2])
                    if abs(z[0][j, l, m]) > 0], key=lambda x: x[0])
        r = best[2] / best[1]
        q = abs(r) ** 2
        if c.spin0 < 0:
            q = 1 / q if q else np.inf
        rows.append([l, int(np.sign(np.real(r))), i12(abs(np.imag(r))),
                     int(round(min(float(q), 1e6) * 1000)) if prev is None else -1,
                     fx(q / prev / 8) if prev else 0])
        prev = q
    return rows


# ----------------------------------------------------------------- geometry
def k_geom(t):
    p, q = t["p"], t["q"]
    lam = p if (q == 1 and t.get("lamint")) else p / q
    L, N, J0 = t["L"], t["N"], t["J0"]
    J = S.j_max(L, lam)
    out = dict(J=int(J), ns=int(S.n_wav_scales(L, N, J0, lam)), rows=[], sc=[])
    for mr in (True, False):
        for j in range(J0, min(int(J), 40) + 1):
            a = S.LN_j(L, j, N, lam, mr)
            out["rows"].append([int(mr), j, int(S.wav_j_bandlimit(L, j, lam, mr)),
                                int(S.L0_j(j, lam)), int(a[0]), int(a[1]), int(a[2])]
                               + [int(x) for x in S.flmn_wav_j(L, j, N, lam, mr)])
        out["sc"].append(int(S.scal_bandlimit(L, J0, lam, mr)))
    return out


def k_shp(t):
    """Predicted shapes and constructors."""
    c = Cfg(t)
    a = (c.L, c.N, c.J0, c.lam)
    J = jmax_of(c.L, c.p, c.q)
    out = {}
    out["scal"] = [int(x) for x in S.f_scal(c.L, c.J0, c.lam, c.smp, c.nside, c.mr)]
    out["wav"] = [[int(x) for x in S.f_wav_j(c.L, j, c.N, c.lam, c.smp, c.nside, c.mr)]
                  for j in n_scales(c)]
    f = S.construct_f(*a, c.smp, c.nside, c.mr)
    out["cf"] = [shape(x) for x in f]
    out["cfs"] = shape(S.construct_f(*a, c.smp, c.nside, c.mr, True))
    fl = S.construct_flmn(*a, c.mr)
    out["cfl"] = [shape(x) for x in fl]
    out["cfls"] = shape(S.construct_flmn(*a, c.mr, True))
    flm = S.construct_flm(c.L, c.J0, c.lam, c.mr)
    out["clm"] = shape(flm)
    jm = t["jmax"]
    jj = jm if jm >= 0 else None
    cj = S.construct_flmn_jax(c.L, c.N, c.J0, jj, c.lam, c.mr)
    ct = S.construct_flmn_torch(c.L, c.N, c.J0, jj, c.lam, c.mr)
    out["cflj"] = [shape(x) for x in cj]
    out["cflt"] = [shape(x) for x in ct]
    lj = S.construct_flm_jax(c.L, c.J0, c.lam, c.mr)
    out["clmj"] = shape(lj)
    out["ncf"] = [len(S.construct_f_jax(c.L, c.J0, jj, c.lam)),
                  len(S.construct_f_torch(c.L, c.J0, jj, c.lam))]
    alls = list(f) + list(fl) + [flm] + list(cj) + list(ct) + [lj]
    out["zeros"] = int(all(np.all(host(x) == 0) for x in alls))
    out["cplx"] = int(all(host(x).dtype == np.complex128 for x in alls))
    # distinct storage: writing one constructed array must not show in another
    k = list(f) + list(fl) + [flm]
    for n, x in enumerate(k):
        x[...] = n + 1
    out["sep"] = int(all(np.all(x == n + 1) for n, x in enumerate(k)))
    # the checker accepts exactly the predicted shapes
    acc, rej = [], []

    def verdict(w, s):
        try:
            S.wavelet_shape_check(w, s, *a, c.smp, c.nside, c.mr)
            return "ok"
        except Exception as e:
            return ename(e)
    w0 = [np.zeros(x) for x in out["wav"]]
    s0 = np.zeros(out["scal"])
    acc.append(verdict(w0, s0))
    acc.append(verdict([np.zeros(x, complex) for x in out["wav"]], s0.astype(complex)))
    rej.append(verdict(w0[:-1], s0))
    rej.append(verdict(w0 + [w0[-1]], s0))
    for k in range(len(w0)):
        for ax in range(w0[k].ndim):
            for d in (-1, 1):
                sh = list(w0[k].shape); sh[ax] += d
                if sh[ax] < 1:
                    continue
                rej.append(verdict(w0[:k] + [np.zeros(sh)] + w0[k + 1:], s0))
        rej.append(verdict(w0[:k] + [w0[k][None]] + w0[k + 1:], s0))
    for ax in range(s0.ndim):
        sh = list(s0.shape); sh[ax] += 1
        rej.append(verdict(w0, np.zeros(sh)))
    rej.append(verdict(w0, s0[None]))
    out["acc"], out["rej"] = acc, rej
    return out


def k_out(t):
    """Shapes and element types of what analysis/synthesis return."""
    c = Cfg(t)
    f = to_map(rand_flm(c), c)
    w, s = analyse(t["bk"], f, c)
    r = synthesise(t["bk"], w, s, c)
    hs = [host(x) for x in list(w) + [s, r]]
    return dict(wsh=[shape(x) for x in w], ssh=shape(s), rsh=shape(r),
                dbl=int(all(x.dtype in (np.float64, np.complex128) for x in hs)),
                finite=int(all(np.all(np.isfinite(x)) for x in hs)))


# -------------------------------------------------------------- linearity
def k_lin(t):
    c = Cfg(t)
    bk = t["bk"]
    f = to_map(rand_flm(c), c)
    g = to_map(rand_flm(c.replace(seed=c.seed + 9)), c)
    al, be = (0.7, -1.3) if c.real else (0.7 - 0.4j, -1.3 + 0.2j)
    fl = bank(c, "vectorch" if bk == "torch" else "vec")
    pa = kernels(c, False, bk == "torch") if bk in ("pre", "torch") else DEFAULT
    ps = kernels(c, True, bk == "torch") if bk in ("pre", "torch") else DEFAULT
    A = lambda x: [host(y) for y in (lambda w, s: list(w) + [s])(*analyse(bk, x, c, fl, pa))]
    B = lambda v: host(synthesise(bk, v[:-1], v[-1], c, fl, ps))
    af, ag = A(f), A(g)
    m = scale_of(af)
    out = {}
    mix = A(al * f + be * g)
    out["add"] = i12(max(maxdiff(x, al * y + be * z) for x, y, z in zip(mix, af, ag)) / m)
    out["amp"] = []
    for e in (-100, -40, -18, -6, 6, 40, 100):
        k = 10.0**e
        out["amp"].append(i12(max(maxdiff(x, k * y) for x, y in zip(A(k * f), af)) / (m * k)))
    if c.real:
        out["split"] = 0
    else:                                # the real and the imaginary part on their own
        re, im = A(np.real(f) + 0j), A(1j * np.imag(f))
        out["split"] = i12(max(maxdiff(x + y, z) for x, y, z in zip(re, im, af)) / m)
    out["zero"] = i12(scale_of0(A(0 * f)))
    ws, s = rand_coefs(c)
    v = [np.asarray(x) for x in ws] + [np.asarray(s)]
    ws, s = rand_coefs(c.replace(seed=c.seed + 5))
    u = [np.asarray(x) for x in ws] + [np.asarray(s)]
    bv, bu = B(v), B(u)
    m = scale_of([bv])
    out["sadd"] = i12(maxdiff(B([al * x + be * y for x, y in zip(v, u)]), al * bv + be * bu) / m)
    out["samp"] = [i12(maxdiff(B([10.0**e * x for x in v]), 10.0**e * bv) / (m * 10.0**e))
                   for e in (-100, -18, 100)]
    if c.real:
        out["ssplit"] = 0
    else:
        out["ssplit"] = i12(maxdiff(B([np.real(x) + 0j for x in v]) + B([1j * np.imag(x) for x in v]), bv) / m)
    parts = [B([x if k == q else 0 * x for k, x in enumerate(v)]) for q in range(len(v))]
    out["sparts"] = i12(maxdiff(sum(parts), bv) / m)
    out["szero"] = i12(scale_of0([B([0 * x for x in v])]))
    return out


def scale_of0(xs):
    d = [np.abs(host(x)).max() for x in xs]
    return max(d) if np.all(np.isfinite(d)) else np.inf


# ------------------------------------------------------- nesting of configurations
def k_nest(t):
    """The same signal analysed with different J0 / L: common wavelet scales coincide."""
    c = Cfg(t)
    bk = t["bk"]
    flm = rand_flm(c)
    f = to_map(flm, c)
    w, s = analyse(bk, f, c)
    m = scale_of(list(w) + [s])
    out = dict(j0=[], l=[], refine=BAD)
    J = jmax_of(c.L, c.p, c.q)
    tele = None
    for j0 in range(0, J):
        c2 = c.replace(J0=j0)
        w2, s2 = analyse(bk, f, c2)
        lo = max(j0, c.J0)
        out["j0"].append(i12(max(maxdiff(w[j - c.J0], w2[j - j0]) for j in range(lo, J + 1)) / m))
    # larger band-limit, same signal: compare Wigner coefficients
    L2 = c.L + t["dL"]
    cL = c.replace(L=L2)
    flm2 = np.zeros((L2, 2 * L2 - 1), complex)
    flm2[: c.L, L2 - c.L: L2 - 1 + c.L] = flm
    f2 = to_map(flm2, cL)
    w2, s2 = analyse(bk, f2, cL)
    for j in range(c.J0, J + 1):
        La, Na = band(c, j); Lb, Nb = band(cL, j)
        A = wig_fwd(w[j - c.J0], La, Na, c); B = wig_fwd(w2[j - c.J0], Lb, Nb, cL)
        nn = min(Na, Nb)
        ll = min(La, Lb)
        d = np.abs(A[Na - nn: Na - 1 + nn, :ll, La - ll: La - 1 + ll]
                   - B[Nb - nn: Nb - 1 + nn, :ll, Lb - ll: Lb - 1 + ll]).max()
        extra = np.abs(B[:, c.L:, :]).max() if Lb > c.L else 0.0
        rest = np.abs(B).copy(); rest[Nb - nn: Nb - 1 + nn, :ll, :] = 0
        k = max(np.abs(A).max(), 1.0)
        out["l"].append(i12(max(d, extra, rest.max()) / k))
    out["top"] = [i12(scale_of0([w2[j - c.J0]])) for j in range(J + 1, jmax_of(L2, c.p, c.q) + 1)]
    Ls = scal_L(c); Ls2 = scal_L(cL)
    sa = to_flm(s, c.replace(L=Ls), Ls); sb = to_flm(s2, cL.replace(L=Ls2), Ls2)
    ll = min(Ls, Ls2)
    out["refine"] = i12(np.abs(sa[:ll, Ls - ll: Ls - 1 + ll] - sb[:ll, Ls2 - ll: Ls2 - 1 + ll]).max())
    return out


def k_nb(t):
    """Filter banks of two band-limits and of every J0: one is a part of the other."""
    c = Cfg(t)
    d = c.replace(L=c.L + t["dL"])
    a, pa = [host(x) for x in bank(c, t["impl"])]
    b, pb = [host(x) for x in bank(d, t["impl"])]
    L, M = c.L, d.L
    J, K = jmax_of(L, c.p, c.q), jmax_of(M, c.p, c.q)
    sub = b[: J + 1, :L, M - L: M - 1 + L]
    outside = b[:, :L].copy()
    outside[:, :, M - L: M - 1 + L] = 0
    j0 = []
    for k in range(J):
        x, px = [host(y) for y in bank(c.replace(J0=k), t["impl"])]
        lo = max(k, c.J0)
        j0.append(i12(max(maxdiff(x[lo:], a[lo:]), float(np.abs(x[:k]).max()) if k else 0.0)))
    return dict(psi=i12(maxdiff(a, sub)), phi=i12(maxdiff(pa, pb[:L])), j0=j0,
                above=i12(max(scale_of0([b[J + 1:, :L]]) if K > J else 0.0, scale_of0([outside]))),
                beyond=i12(scale_of0([pb[min(M, ceilpow(c.p, c.q, c.J0)):]])
                           if ceilpow(c.p, c.q, c.J0) < M else 0.0))


def k_klam(t):
    """The generating function itself and the axisymmetric filters built from it."""
    c = Cfg(t)
    jx = t["impl"] == "jax"
    fn = F.k_lam_jax if jx else F.k_lam
    k = host(fn(c.L, c.lam) if t["iters"] == 0 else fn(c.L, c.lam, t["iters"]))
    ax = {"jax": F.filters_axisym_jax, "vec": F.filters_axisym_vectorised, "loop": F.filters_axisym}[t["impl"]]
    psi, phi = [host(x) for x in ax(c.L, c.J0, c.lam)]
    return dict(ksh=shape(k), psh=shape(psi), fsh=shape(phi),
                k=[[fx(x) for x in r] for r in k], psi2=[[fx(x * abs(x)) for x in r] for r in psi],
                phi2=[fx(x * abs(x)) for x in phi],
                one=[i12(abs(float((psi[:, l] ** 2).sum() + phi[l] ** 2) - 1)) for l in range(c.L)])


# ---------------------------------------------------------- multiresolution
def k_mr(t):
    c = Cfg(t).replace(mr=True)
    d = c.replace(mr=False)
    bk = t["bk"]
    f = to_map(rand_flm(c), c)
    w, s = analyse(bk, f, c)
    v, u = analyse(bk, f, d)
    L = c.L
    res, out_of = [], []
    for j in n_scales(c):
        Lj, Nj = band(c, j)
        A = wig_fwd(w[j - c.J0], Lj, Nj, c)
        B = wig_fwd(v[j - c.J0], L, c.N, d)
        k = max(np.abs(A).max(), 1.0)
        nn = min(Nj, c.N)
        res.append(i12(np.abs(A[Nj - nn: Nj - 1 + nn] - B[c.N - nn: c.N - 1 + nn, :Lj, L - Lj: L - 1 + Lj]).max() / k))
        R = np.abs(B).copy(); R[c.N - nn: c.N - 1 + nn, :Lj, L - Lj: L - 1 + Lj] = 0
        out_of.append(i12(R.max() / k))
    Ls = scal_L(c)
    sa = to_flm(s, c.replace(L=Ls), Ls); sb = to_flm(u, d)
    k = max(np.abs(sb).max(), 1e-300)
    sres = i12(np.abs(sa - sb[:Ls, L - Ls: L - 1 + Ls]).max() / max(k, 1.0))
    R = np.abs(sb).copy(); R[:Ls] = 0
    return dict(res=res, out=out_of, sres=sres, sout=i12(R.max() / max(k, 1.0)),
                rt=i12(maxdiff(synthesise(bk, v, u, d), f) / np.abs(f).max()),
                sh=[shape(x) for x in v] + [shape(u)])


# --------------------------------------------------------------- scattering
def k_scat(t):
    c = Cfg(t)
    f = to_map(rand_flm(c), c)
    kw = dict(spin=c.spin, sampling=c.smp, nside=c.nside, reality=c.real, multiresolution=c.mr)
    w, s = base.analysis(f, c.L, c.N, c.J0, c.lam, **kw)
    v, u = base.analysis(f, c.L, c.N, c.J0, c.lam, scattering=True, **kw)
    m = scale_of(list(w) + [s])
    return dict(res=[i12(maxdiff(np.abs(a), b) / m) for a, b in zip(w, v)],
                scal=i12(maxdiff(s, u) / m), n=len(v),
                neg=i12(max(max(0.0, float((-np.real(x)).max())) for x in v)),
                imag=i12(max(float(np.abs(np.imag(x)).max()) for x in v)))


# ------------------------------------------------------------------ HEALPix
def k_hpx(t):
    c = Cfg(t)
    flm = rand_flm(c)
    f = to_map(flm, c)
    ref = analyse("base", f, c)
    m = scale_of(list(ref[0]) + [ref[1]])
    errs, ress = [], []
    for b in t["bks"]:
        try:
            ress.append(coef_residuals(ref, analyse(b, f, c))); errs.append("")
        except Exception as e:
            errs.append(ename(e)); ress.append([BAD])
    rs, re = [], []
    r0 = synthesise("base", *ref, c)
    for b in t["bks"]:
        try:
            rs.append([i12(maxdiff(r0, synthesise(b, *ref, c)) / scale_of([r0]))]); re.append("")
        except Exception as e:
            re.append(ename(e)); rs.append([BAD])
    # harmonic inputs bypass the quadrature: exact
    lm, le = [], []
    cw = c.replace(smp="mw", nside=None)
    wmw = analyse("base", to_map(flm, cw), cw)[0]
    for b in t["fbks"]:
        try:
            w = flm_analyse(b, flm, c)
            d = 0.0
            for j in n_scales(c):
                Lj, Nj = band(c, j)
                W = wig_fwd(wmw[j - c.J0], Lj, Nj, cw)
                d = max(d, maxdiff(w[j - c.J0], wig_inv(W, Lj, Nj, c)) / m)
            lm.append([i12(d)]); le.append("")
        except Exception as e:
            le.append(ename(e)); lm.append([BAD])
    err = float(np.abs(host(r0) - f).max() / np.abs(f).max())
    return dict(errs=errs, ress=ress, serrs=re, sress=rs, ferrs=le, fress=lm,
                wsh=[shape(x) for x in ref[0]], ssh=shape(ref[1]), rough=i12(err, 1e-6))


# -------------------------------------------------------------------- gradients
def k_grad(t):
    """d/de of a real functional along v, by autodiff, against the exact derivative."""
    c = Cfg(t)
    bk, what = t["bk"], t["what"]
    rng = np.random.default_rng(c.seed + 123)
    fl = bank(c, "vectorch" if bk == "torch" else "vec")
    fw = what == "syn"
    pre = kernels(c, fw, bk == "torch") if bk in ("pre", "torch") else DEFAULT
    f = to_map(rand_flm(c), c)
    v = to_map(rand_flm(c.replace(seed=c.seed + 31)), c)
    if what in ("ana", "flm"):
        x, y = (f, v) if what == "ana" else (rand_flm(c), rand_flm(c.replace(seed=c.seed + 31)))
        if c.real and what == "ana":
            x, y = np.real(x), np.real(y)
        call = (lambda z: (lambda w, s: list(w) + [s])(*analyse(bk, z, c, fl, pre))) \
            if what == "ana" else (lambda z: list(flm_analyse(bk, z, c, None, fl[0], pre)))
        refx = [host(q) for q in (lambda w, s: list(w) + [s])(*analyse("base", f, c))]
        refy = [host(q) for q in (lambda w, s: list(w) + [s])(*analyse("base", v, c))]
        if what == "flm":
            refx, refy = refx[:-1], refy[:-1]
        flat = lambda z: z
        xs, ys = [x], [y]
        fun = lambda zs: call(zs[0])
    else:
        wx, sx = rand_coefs(c)
        wy, sy = rand_coefs(c.replace(seed=c.seed + 31))
        xs, ys = list(wx) + [sx], list(wy) + [sy]
        if c.real:
            xs, ys = [np.real(q) for q in xs], [np.real(q) for q in ys]
        fun = lambda zs: [synthesise_raw(bk, zs[:-1], zs[-1], c, fl, pre)]
        refx = [host(synthesise("base", xs[:-1], xs[-1], c))]
        refy = [host(synthesise("base", ys[:-1], ys[-1], c))]
    tg = [rng.standard_normal(q.shape) + 1j * rng.standard_normal(q.shape) for q in refx]
    # loss = sum |out - target|^2 ; derivative along y = 2 Re sum conj(out - target) Ay
    exact = 2 * sum(float(np.real(np.sum(np.conj(a - b) * d))) for a, b, d in zip(refx, tg, refy))
    lossx = sum(float((np.abs(a - b) ** 2).sum()) for a, b in zip(refx, tg))
    if bk == "torch":
        ts = [torch.from_numpy(np.array(q)).requires_grad_(True) for q in xs]
        o = fun(ts)
        loss = sum((torch.abs(a - torch.from_numpy(b)) ** 2).sum() for a, b in zip(o, tg))
        loss.backward()
        gs = [q.grad.resolve_conj().numpy() for q in ts]
        got = sum(float(np.real(np.sum(np.conj(g) * d))) for g, d in zip(gs, ys))
        lv = float(loss.detach())
    else:
        def loss(zs):
            o = fun(zs)
            return sum(jnp.sum(jnp.abs(a - b) ** 2) for a, b in zip(o, tg))
        lv, gs = jax.value_and_grad(loss)([jnp.asarray(q) for q in xs])
        lv = float(lv)
        got = sum(float(np.real(np.sum(np.asarray(g) * d))) for g, d in zip(gs, ys))
    gmax = max(float(np.abs(host(g)).max()) for g in gs)
    k = sum(float(np.abs(2 * np.conj(a - b) * d).sum()) for a, b, d in zip(refx, tg, refy))
    return dict(val=i12(abs(lv - lossx) / lossx), der=i12(abs(got - exact) / max(k, 1e-30)),
                nonzero=int(gmax > 0))


def synthesise_raw(bk, w, s, c, fl, pre):
    pos = (c.L, c.N, c.J0, c.lam)
    kw = dict(spin=c.spin, sampling=c.smp, reality=c.real, filters=fl)
    if bk == "c":
        return wavelet_c.synthesis(w, s, *pos, **kw)
    kw["nside"] = c.nside
    if bk == "jax":
        return wavelet.synthesis(w, s, *pos, **kw)
    kw["precomps"] = pre
    if bk == "pre":
        return wavelet_precompute.synthesis(w, s, *pos, **kw)
    return wavelet_precompute_torch.synthesis(w, s, *pos, **kw)


# ------------------------------------------------------------------ rejection
def k_inv(t):
    """One call with one (possibly) invalid argument: the outcome is its error type."""
    c = Cfg(t)
    op = t["op"]
    a = (c.L, c.N, c.J0, c.lam)
    z = np.zeros(to_shape(c.L, c), complex)
    good = c.replace(J0=max(0, min(c.J0, jmax_of(c.L, c.p, c.q) - 1)))

    def go():
        if op == "axi": return F.filters_axisym(c.L, c.J0, c.lam)
        if op == "axivec": return F.filters_axisym_vectorised(c.L, c.J0, c.lam)
        if op == "axijax": return F.filters_axisym_jax(c.L, c.J0, c.lam)
        if op == "dir": return F.filters_directional(*a)
        if op == "dirvec": return F.filters_directional_vectorised(*a)
        if op == "dirjax": return F.filters_directional_jax(*a)
        if op in ("base", "loop"): return analyse(op, z, c)
        if op == "pre_noker":
            return wavelet_precompute.analysis(z, *a, filters=bank(c))
        if op == "pre_noker_syn":
            w, s = zeros(c)
            return wavelet_precompute.synthesis(w, s, *a, filters=bank(c))
        if op == "pre_noker_flm":
            return wavelet_precompute.flm_to_analysis(rand_flm(c), c.L, c.N, c.J0, None, c.lam, filters=bank(c)[0])
        if op == "torch_noker":
            return wavelet_precompute_torch.analysis(torch.from_numpy(z), *a, filters=bank(c, "vectorch"))
        if op == "torch_noker_syn":
            w, s = zeros(c)
            return wavelet_precompute_torch.synthesis([torch.from_numpy(x) for x in w], torch.from_numpy(s), *a, filters=bank(c, "vectorch"))
        if op == "torch_noker_flm":
            return wavelet_precompute_torch.flm_to_analysis(torch.from_numpy(rand_flm(c)), c.L, c.N, c.J0, None, c.lam, filters=bank(c, "vectorch")[0])
        if op in ("c_hpx", "c_HPX"):
            return wavelet_c.analysis(np.zeros(12 * 4, complex), *a, sampling="healpix" if op == "c_hpx" else "HEALPix", filters=bank(c))
        if op in ("c_hpx_syn", "c_HPX_syn"):
            w, s = zeros(c)
            return wavelet_c.synthesis(w, s, *a, sampling="healpix" if op == "c_hpx_syn" else "HEALPix", filters=bank(c))
        if op in ("c_hpx_flm", "c_HPX_flm"):
            return wavelet_c.flm_to_analysis(rand_flm(c), c.L, c.N, c.J0, None, c.lam, sampling="healpix" if op == "c_hpx_flm" else "HEALPix", filters=bank(c)[0])
        if op.startswith(("j0_", "smp_")):            # default filters, a scale or a sampling that does not exist
            b, what = op.split("_")[1], op.split("_")[-1]
            bad = c.J0 if op[0] == "j" else good.J0
            kw = dict(sampling=c.smp if op[0] == "j" else t["arg"])
            mod = dict(base=base, loop=base, c=wavelet_c, jax=wavelet, pre=wavelet_precompute,
                       torch=wavelet_precompute_torch, shape=S)[b]
            own = torch.from_numpy if b == "torch" else jnp.asarray if b in ("c", "jax", "pre") else np.array
            if b in ("pre", "torch"):
                kw["precomps"] = kernels(good, what == "syn", b == "torch")
            if b == "shape":
                return S.f_scal(c.L, bad, c.lam, **kw), S.f_wav_j(c.L, bad, c.N, c.lam, **kw)
            tail = "_looped" if b == "loop" else ""
            if what == "flm":
                return mod.flm_to_analysis(own(rand_flm(c)), c.L, c.N, bad, None, c.lam, **kw)
            if what == "syn":
                w, s = zeros(good)
                return getattr(mod, "synthesis" + tail)([own(x) for x in w], own(s), c.L, c.N, bad, c.lam, **kw)
            return getattr(mod, "analysis" + tail)(own(z), c.L, c.N, bad, c.lam, **kw)
        if op.startswith("syn_"):                     # wrong coefficient shapes
            w, s = zeros(c)
            k = t["arg"]
            if op.endswith("missing"): w = w[:-1]
            elif op.endswith("extra"): w = w + [w[-1]]
            elif op.endswith("scal"): s = np.zeros([s.shape[0] + 1] + list(s.shape[1:]), complex)
            elif op.endswith("wav"):
                q = k % len(w); sh = list(w[q].shape); sh[k % 3] += 1; w[q] = np.zeros(sh, complex)
            elif op.endswith("order"): w = w[::-1]
            fn = base.synthesis if "_base_" in op else base.synthesis_looped
            return fn(w, s, *a, sampling=c.smp, multiresolution=c.mr)
        raise NotImplementedError(op)
    try:
        go()
        return dict(outcome="ok")
    except NotImplementedError:
        raise
    except Exception as e:
        return dict(outcome=ename(e))


def zeros(c):
    w = []
    for j in n_scales(c):
        Lj, Nj = band(c, j)
        w.append(np.zeros([2 * Nj - 1] + list(to_shape(Lj, c)), complex))
    return w, np.zeros(to_shape(scal_L(c), c), complex)


# ----------------------------------------------------------------- rotations
def rotation(L, kind, rng):
    """D^l_{mm'} of one rotation for every l<L, by exponentials of the generators."""
    if kind == "polar":
        a, b, g = rng.random() * 2 * PI, 0.0, 0.0
    elif kind == "flip":
        a, b, g = 0.0, PI, 0.0
    else:
        a, b, g = rng.random() * 2 * PI, rng.random() * PI, rng.random() * 2 * PI
    out = []
    for l in range(L):
        m = np.arange(-l, l + 1)
        up = np.sqrt(l * (l + 1) - m[:-1] * (m[:-1] + 1.0))        # <m+1|J+|m>
        Jy = (np.diag(up, -1) - np.diag(up, 1)) / 2j
        v, U = np.linalg.eigh(Jy)
        d = (U * np.exp(-1j * b * v)) @ U.conj().T
        out.append(np.exp(-1j * m[:, None] * a) * d.real * np.exp(-1j * m[None, :] * g))
    return out


def rotate_lm(x, D):
    """Rotate the m index of coefficients [..., l, m]."""
    L = x.shape[-2]
    y = np.zeros_like(x)
    for l in range(L):
        y[..., l, L - 1 - l: L + l] = x[..., l, L - 1 - l: L + l] @ D[l].T
    return y


def k_rot(t):
    """Transform of the rotated signal against the rotated transform of the signal."""
    c = Cfg(t)
    bk = t["bk"]
    cc = c.replace(real=False)
    rng = np.random.default_rng(c.seed * 13 + 7)
    D = rotation(c.L, t["what"], rng)
    flm = rand_flm(c)
    m = np.abs(flm).max()
    w, s = analyse(bk, to_map(flm, c), c)
    w2, s2 = analyse(bk, to_map(rotate_lm(flm, D), c), c)
    wav, par = [], []
    for j in n_scales(c):
        Lj, Nj = band(c, j)
        A, B = wig_fwd(w[j - c.J0], Lj, Nj, cc), wig_fwd(w2[j - c.J0], Lj, Nj, cc)
        k = max(np.abs(A).max(), m)
        wav.append(i12(np.abs(rotate_lm(A, D) - B).max() / k))
        par.append(i12(max([np.abs(B[Nj - 1 + n]).max() for n in range(-Nj + 1, Nj)
                            if (n + c.N) % 2 == 0 or abs(n) >= c.N] + [0.0]) / k))
    Ls = scal_L(c)
    if Ls > abs(c.spin):
        A, B = to_flm(s, cc, Ls), to_flm(s2, cc, Ls)
        scal = i12(np.abs(rotate_lm(A, D) - B).max() / max(np.abs(A).max(), m))
    else:
        scal = i12(max(np.abs(host(s)).max(), np.abs(host(s2)).max()) / m)
    # synthesis of arbitrary coefficients
    cw, cs_ = rand_coefs(c)
    rw = []
    for j in n_scales(c):
        Lj, Nj = band(c, j)
        rw.append(wig_inv(rotate_lm(wig_fwd(cw[j - c.J0], Lj, Nj, cc), D), Lj, Nj, c))
    rs = cs_ if Ls <= abs(c.spin) else to_map(rotate_lm(to_flm(cs_, cc, Ls), D), c, Ls)
    r, r2 = to_flm(synthesise(bk, cw, cs_, c), cc), to_flm(synthesise(bk, rw, rs, c), cc)
    k = np.abs(r).max()
    syn = i12(np.abs(rotate_lm(r, D) - r2).max() / (k if k > 0 else 1.0))
    return dict(wav=wav, par=par, scal=scal, syn=syn)


# ----------------------------------------------------------- forms of a call
def raw_call(bk, op, xs, c, fl, pre, keywords=False):
    """The public function on exactly these objects (nothing converted on the way)."""
    mod = dict(base=base, loop=base, c=wavelet_c, jax=wavelet, pre=wavelet_precompute,
               torch=wavelet_precompute_torch)[bk]
    fn = getattr(mod, dict(ana="analysis", syn="synthesis", flm="flm_to_analysis")[op]
                 + ("_looped" if bk == "loop" else ""))
    kw = dict(L=c.L, N=c.N, J_min=c.J0, lam=c.lam, spin=c.spin, sampling=c.smp, nside=c.nside, reality=c.real)
    if bk in ("base", "loop"):
        kw["spin0"], kw["multiresolution"] = c.spin0, c.mr
    else:
        kw["filters"] = fl
        if bk in ("pre", "torch") or (bk == "jax" and pre is not None):
            kw["precomps"] = pre
    if bk == "c":
        del kw["nside"]
    if op == "flm":
        del kw["spin"]
        kw["J_max"] = None
    order = [p for p in inspect.signature(inspect.unwrap(fn)).parameters]
    if keywords:
        names = dict(ana=["f"], syn=["f_wav", "f_scal"], flm=["flm"])[op]
        return fn(**dict(zip(names, xs)), **kw)
    pos = []
    for p in order[len(xs):]:
        if p not in kw:
            break
        pos.append(kw.pop(p))
    return fn(*xs, *pos, **kw)


def memory_form(x, form):
    """The same values, laid out differently in memory."""
    x = np.asarray(x)
    if form == "fortran":
        return np.asfortranarray(x)
    if form == "strided":
        y = np.zeros([2 * n for n in x.shape], x.dtype)
        y[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return y[tuple(slice(None, None, 2) for _ in x.shape)]
    if form == "reversed":
        return np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    if form == "readonly":
        y = np.array(x)
        y.flags.writeable = False
        return y
    return np.array(x)


def k_form(t):
    c = Cfg(t)
    bk, op, form = t["bk"], t["op"], t["form"]
    tor = bk == "torch"
    fl = bank(c, "vectorch" if tor else "vec")
    if op == "flm":
        fl = fl[0]
    fw = op == "syn"
    pre = kernels(c, fw, tor) if bk in ("pre", "torch") else None

    def inputs(seed):
        d = c.replace(seed=c.seed + seed)
        if op == "ana":
            return [to_map(rand_flm(d), d)]
        if op == "flm":
            return [rand_flm(d)]
        w, s = rand_coefs(d)
        return [np.array(x) for x in w] + [np.array(s)]

    own = (lambda x: x) if bk in ("base", "loop") else torch.from_numpy if tor else jnp.asarray
    pack = lambda v: [list(v[:-1]), v[-1]] if op == "syn" else list(v)
    def unpack(o):
        return [o] if op == "syn" else list(o) if op == "flm" else list(o[0]) + [o[1]]
    plain = lambda v: unpack(raw_call(bk, op, pack([own(np.array(x)) for x in v]), c, fl, pre))
    v = inputs(0)
    ref = [host(x) for x in plain(v)]
    m = scale_of(ref)
    cmp_ = lambda o, r: i12(max([maxdiff(x, y) for x, y in zip(o, r)]) / m) if len(o) == len(r) else BAD
    if form in ("fortran", "strided", "reversed", "readonly"):
        u = [memory_form(x, form) for x in v]
        if tor:
            if form in ("reversed", "readonly"):     # not expressible as a tensor
                u = [np.ascontiguousarray(x) for x in v]
            u = [torch.from_numpy(x) for x in u]
        out = unpack(raw_call(bk, op, pack(u), c, fl, pre))
    elif form == "keywords":
        out = unpack(raw_call(bk, op, pack([own(x) for x in v]), c, fl, pre, keywords=True))
    elif form == "tuple":
        xs = pack([own(x) for x in v])
        if op == "syn":
            xs[0] = tuple(xs[0])
        seq = (lambda p: p) if pre is None else (lambda p: (p[0], p[1], tuple(p[2])))
        f2 = fl if op == "flm" else list(fl)
        out = unpack(raw_call(bk, op, xs, c, f2, seq(pre)))
    elif form == "complex":                          # a real signal held in a complex array
        out = unpack(raw_call(bk, op, pack([own(x.astype(np.complex128)) for x in v]), c, fl, pre))
    elif form == "realtype":                         # real values, general path, real array
        d = c.replace(real=False)
        pre2 = kernels(d, fw, tor) if bk in ("pre", "torch") else None
        r = [np.ascontiguousarray(np.real(x)) for x in v]
        out = unpack(raw_call(bk, op, pack([own(x) for x in r]), d, fl, pre2))
        ref = [host(x) for x in unpack(raw_call(bk, op, pack([own(x + 0j) for x in r]), d, fl, pre2))]
    elif form == "jaxarrays":
        out = unpack(raw_call(bk, op, pack([jnp.asarray(x) for x in v]), c, fl, pre))
    elif form == "numpy":
        out = unpack(raw_call(bk, op, pack(v), c, fl, pre))
    elif form == "npint":                            # sizes as numpy integers
        d = c.replace(L=np.int64(c.L), N=np.int64(c.N), J0=np.int64(c.J0))
        out = unpack(raw_call(bk, op, pack([own(x) for x in v]), d, fl, pre))
    elif form == "nograd":
        with torch.no_grad():
            out = unpack(raw_call(bk, op, pack([own(x) for x in v]), c, fl, pre))
    elif form == "grad":
        xs = [own(np.array(x)).requires_grad_(True) for x in v]
        out = unpack(raw_call(bk, op, pack(xs), c, fl, pre))
    elif form == "jit":
        out = jax.jit(lambda z: unpack(raw_call(bk, op, pack(z), c, fl, pre)))([own(x) for x in v])
    elif form == "jitargs":
        out = jax.jit(lambda z, a, b: unpack(raw_call(bk, op, pack(z), c, a, b)))([own(x) for x in v], fl, pre)
    elif form == "vmap":
        vs = [v, inputs(3), inputs(8)]
        b = [own(np.stack(x)) for x in zip(*vs)]
        o = jax.vmap(lambda z: unpack(raw_call(bk, op, pack(z), c, fl, pre)))(b)
        out = [host(x)[k] for k in range(3) for x in o]
        ref = [host(x) for q in vs for x in plain(q)]
    elif form in ("jvp", "vjp", "linearize"):
        y = inputs(5)
        fn = lambda z: unpack(raw_call(bk, op, pack(z), c, fl, pre))
        _, out = jax.jvp(fn, ([own(x) for x in v],), ([own(x) for x in y],))
        ref = [host(x) for x in plain(y)]
    else:
        raise KeyError(form)
    return dict(res=cmp_([host(x) for x in out], ref), n=len(out))
