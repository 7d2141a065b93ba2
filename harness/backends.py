"""Public entry points of s2wav, one uniform calling convention per backend.

Only documented, public functions are used; nothing here looks at how they are written.
"""
import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import torch
import s2fft
from s2fft import base_transforms as s2f
import s2wav
from s2wav import filters as F, samples as S
from s2wav.transforms import (
    base, construct, wavelet, wavelet_c, wavelet_precompute, wavelet_precompute_torch,
)

torch.set_num_threads(1)
BAD = 2147483647


class Cfg:
    """A configuration as drawn by the specification (see Plan.tla)."""

    def __init__(self, t):
        self.L, self.N, self.J0 = t["L"], t["N"], t["J0"]
        p, q = t["p"], t["q"]
        self.p, self.q = p, q
        # integers are as legitimate a scale factor as floats
        self.lam = p if (q == 1 and t.get("lamint")) else p / q
        self.spin, self.spin0 = t.get("spin", 0), t.get("spin0", 0)
        self.smp = t.get("smp", "mw")
        self.nside = None if t.get("nside", -1) < 0 else t["nside"]
        self.real = bool(t.get("real", False))
        self.mr = bool(t.get("mr", True))
        self.seed = t.get("seed", 0)
        self.sig = t.get("sig", "rand")

    def replace(self, **kw):
        import copy
        c = copy.copy(self)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


def i12(x, unit=1e-12):
    """Non-negative real to an integer number of `unit`s; NaN/inf/huge saturate."""
    x = float(x)
    if not np.isfinite(x) or x / unit >= BAD:
        return BAD
    return int(np.ceil(abs(x) / unit)) if x else 0


def fx(x):
    """Real to 2^28 fixed point (saturating at +-4; NaN/inf become BAD)."""
    x = float(x)
    if not np.isfinite(x):
        return BAD
    return int(round(max(-4.0, min(4.0, x)) * 2**28))


def host(x):
    """Any array to a numpy array."""
    if isinstance(x, torch.Tensor):
        return x.detach().resolve_conj().resolve_neg().numpy()
    return np.asarray(x)


def maxdiff(a, b):
    a, b = host(a), host(b)
    if tuple(a.shape) != tuple(b.shape):
        raise ValueError("shape mismatch %s %s" % (a.shape, b.shape))
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    return float(np.max(d)) if np.all(np.isfinite(d)) else float("inf")


# ------------------------------------------------------------------ signals
def rand_flm(c, L=None, spin=None):
    """Random coefficients: every admissible (l,m) populated, modulus in [0.5, 1.5]."""
    L = c.L if L is None else L
    spin = c.spin if spin is None else spin
    rng = np.random.default_rng(c.seed * 1009 + 17)
    mod = 0.5 + rng.random((L, 2 * L - 1))
    ph = np.exp(2j * np.pi * rng.random((L, 2 * L - 1)))
    flm = mod * ph
    if c.sig == "steep":                  # seven decades between the strongest and the weakest
        flm = flm * 10.0 ** (-7 * rng.random((L, 2 * L - 1)))
    if c.sig == "mode":
        keep = np.zeros_like(flm)
        l = abs(spin) + int(rng.integers(0, L - abs(spin)))
        m = int(rng.integers(-l, l + 1))
        keep[l, L - 1 + m] = flm[l, L - 1 + m]
        if c.real:
            keep[l, L - 1 - m] = 1.0
        flm = keep
    if c.sig == "zonal":
        flm[:, : L - 1] = 0
        flm[:, L:] = 0
    elif c.sig == "low":
        flm[min(abs(spin), L - 1) + 1:] = 0
    elif c.sig == "top":
        flm[: L - 1] = 0
    elif c.sig == "nomean" and L - 1 > abs(spin):
        flm[: abs(spin) + 1] = 0
    for l in range(L):
        for m in range(-L + 1, L):
            if abs(m) > l or l < abs(spin):
                flm[l, L - 1 + m] = 0
    symmetric = c.real or (c.sig == "imag" and spin == 0)
    if symmetric:
        for l in range(L):
            flm[l, L - 1] = flm[l, L - 1].real if c.sig != "mode" else abs(flm[l, L - 1])
            for m in range(1, l + 1):
                flm[l, L - 1 - m] = (-1) ** m * np.conj(flm[l, L - 1 + m])
    if c.sig == "imag" and not c.real:
        flm = flm * 1j                    # spin 0: a purely imaginary signal
    if c.sig == "tiny":
        flm = flm * 1e-30
    if c.sig == "huge":
        flm = flm * 1e30
    return flm


BIG = 66      # beyond it s2fft's compiled transforms stand in for its numpy ones


def to_map(flm, c, L=None):
    L = c.L if L is None else L
    if L > BIG and c.smp != "healpix":
        f = np.array(s2fft.inverse(flm, L, c.spin, None, c.smp, "jax_ssht", False))
        return np.array(f.real) if c.real else f
    f = s2f.spherical.inverse(flm, L, c.spin, c.smp, c.nside, c.real)
    return np.asarray(f)


def to_flm(f, c, L=None, spin=None):
    L = c.L if L is None else L
    spin = c.spin if spin is None else spin
    if L > BIG and c.smp != "healpix":
        return np.array(s2fft.forward(host(f) + 0j, L, spin, None, c.smp, "jax_ssht", False))
    return np.asarray(s2f.spherical.forward(host(f), L, spin, c.smp, c.nside, False))


def wig_fwd(w, Lj, Nj, c):
    if Lj > BIG and c.smp != "healpix":
        return np.array(s2fft.wigner.forward(host(w) + 0j, Lj, Nj, None, c.smp, "jax_ssht", False))
    return np.asarray(s2f.wigner.forward(host(w), Lj, Nj, 0, c.smp, False, c.nside))


def wig_inv(flmn, Lj, Nj, c):
    if Lj > BIG and c.smp != "healpix":
        f = np.array(s2fft.wigner.inverse(flmn, Lj, Nj, None, c.smp, "jax_ssht", False))
        return np.array(f.real) if c.real else f
    return np.asarray(s2f.wigner.inverse(flmn, Lj, Nj, 0, c.smp, c.real, c.nside))


# ------------------------------------------------------------------- calls
def bank(c, impl="vec"):
    a = (c.L, c.N, c.J0, c.lam, c.spin, c.spin0)
    if impl == "vec":
        return F.filters_directional_vectorised(*a)
    if impl == "loop":
        return F.filters_directional(*a)
    if impl == "jax":
        return F.filters_directional_jax(*a)
    if impl == "vectorch":
        return F.filters_directional_vectorised(*a, using_torch=True)
    if impl == "looptorch":
        return F.filters_directional(*a, using_torch=True)
    raise KeyError(impl)


def kernels(c, forward, use_torch=False, nospherical=False):
    kw = dict(nospherical=nospherical, using_torch=use_torch)
    if c.spin != 0:
        kw["spin"] = c.spin
    return construct.generate_full_precomputes(
        c.L, c.N, c.J0, c.lam, c.smp, c.nside, forward, c.real, **kw)


DEFAULT = object()


def analyse(bk, f, c, filt=DEFAULT, pre=DEFAULT):
    """filt/pre: DEFAULT -> generated the way the documentation shows; None -> omitted."""
    pos = (c.L, c.N, c.J0, c.lam)
    kw = dict(spin=c.spin, sampling=c.smp, reality=c.real)
    if bk in ("base", "loop"):
        fn = base.analysis if bk == "base" else base.analysis_looped
        return fn(f, *pos, spin0=c.spin0, nside=c.nside, multiresolution=c.mr, **kw)
    if filt is DEFAULT:
        filt = bank(c, "vectorch" if bk == "torch" else "vec")
    kw["filters"] = filt
    if bk == "c":
        return wavelet_c.analysis(jnp.asarray(f), *pos, **kw)
    kw["nside"] = c.nside
    if bk == "jax":
        if pre is not DEFAULT:
            kw["precomps"] = pre
        return wavelet.analysis(jnp.asarray(f), *pos, **kw)
    if pre is DEFAULT:
        pre = kernels(c, False, bk == "torch")
    kw["precomps"] = pre
    if bk == "pre":
        return wavelet_precompute.analysis(jnp.asarray(f), *pos, **kw)
    t = f if isinstance(f, torch.Tensor) else torch.from_numpy(np.array(f))
    return wavelet_precompute_torch.analysis(t, *pos, **kw)


def synthesise(bk, w, s, c, filt=DEFAULT, pre=DEFAULT):
    pos = (c.L, c.N, c.J0, c.lam)
    kw = dict(spin=c.spin, sampling=c.smp, reality=c.real)
    if bk in ("base", "loop"):
        fn = base.synthesis if bk == "base" else base.synthesis_looped
        return fn(w, s, *pos, spin0=c.spin0, nside=c.nside, multiresolution=c.mr, **kw)
    if filt is DEFAULT:
        filt = bank(c, "vectorch" if bk == "torch" else "vec")
    kw["filters"] = filt
    if bk != "torch":
        w, s = [jnp.asarray(host(x)) for x in w], jnp.asarray(host(s))
    if bk == "c":
        return wavelet_c.synthesis(w, s, *pos, **kw)
    kw["nside"] = c.nside
    if bk == "jax":
        if pre is not DEFAULT:
            kw["precomps"] = pre
        return wavelet.synthesis(w, s, *pos, **kw)
    if pre is DEFAULT:
        pre = kernels(c, True, bk == "torch")
    kw["precomps"] = pre
    if bk == "pre":
        return wavelet_precompute.synthesis(w, s, *pos, **kw)
    def tt(x):
        return x if isinstance(x, torch.Tensor) else torch.from_numpy(np.array(host(x)))
    return wavelet_precompute_torch.synthesis([tt(x) for x in w], tt(s), *pos, **kw)


def flm_analyse(bk, flm, c, jmax=None, filt=DEFAULT, pre=DEFAULT):
    kw = dict(sampling=c.smp, reality=c.real)
    pos = (c.L, c.N, c.J0, jmax, c.lam)
    if filt is DEFAULT:
        filt = bank(c, "vectorch" if bk == "torch" else "vec")[0]
    kw["filters"] = filt
    if bk == "c":
        return wavelet_c.flm_to_analysis(jnp.asarray(flm), *pos, **kw)
    kw["nside"] = c.nside
    if bk == "jax":
        if pre is not DEFAULT:
            kw["precomps"] = pre
        return wavelet.flm_to_analysis(jnp.asarray(flm), *pos, **kw)
    if pre is DEFAULT:
        pre = kernels(c, False, bk == "torch")
    kw["precomps"] = pre
    if bk == "pre":
        return wavelet_precompute.flm_to_analysis(jnp.asarray(flm), *pos, **kw)
    t = flm if isinstance(flm, torch.Tensor) else torch.from_numpy(np.array(flm))
    return wavelet_precompute_torch.flm_to_analysis(t, *pos, **kw)


# --------------------------------------------- sizes, independent of s2wav
def jmax_of(L, p, q):
    J = 0
    while p**J < L * q**J:
        J += 1
    return J


def ceilpow(p, q, j):
    return -((-(p**j)) // (q**j))


def band(c, j):
    """(Lj, Nj) of the arrays a scale is stored in, from exact integers."""
    if not c.mr:
        return c.L, c.N
    Lj = min(ceilpow(c.p, c.q, max(j, 1) + 1), c.L)
    Nj = min(c.N, Lj)
    return Lj, Nj + (Nj + c.N) % 2


def scal_L(c):
    return min(ceilpow(c.p, c.q, c.J0), c.L) if c.mr else c.L


def n_scales(c):
    return range(c.J0, jmax_of(c.L, c.p, c.q) + 1)
