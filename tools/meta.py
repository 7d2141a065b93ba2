"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F, S, B = "s2wav/filters.py", "s2wav/samples.py", "s2wav/transforms/base.py"
C, W, WC = "s2wav/transforms/construct.py", "s2wav/transforms/wavelet.py", "s2wav/transforms/wavelet_c.py"
WP, WT = "s2wav/transforms/wavelet_precompute.py", "s2wav/transforms/wavelet_precompute_torch.py"
ALLT = [B, W, WC, WP, WT]
DOM = "L>=2, 1<=N<=L, lam>1 (integer or fractional), 0<=J_min<J, |spin|<L, sampling mw/mwss/dh/gl"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or []))


IC = ["inputs", "configurations"]
prop("C01", "Perfect reconstruction",
     "For every valid configuration and every band-limited signal (complex, real with reality=True, spin), synthesis of the "
     "coefficients returned by analysis gives back the signal to numerical precision, in every backend (base, looped, C, JAX, "
     "precompute JAX, precompute torch), multiresolution or full resolution. The coefficient arrays and the reconstruction have "
     "the shapes the configuration prescribes.",
     IC, "all " + DOM + "; all band-limited signals of any amplitude",
     "tests reach L=8, lam in {2,3}, J_min in {0,1}, N in {2,3}, one random signal each",
     ALLT + [F], [("filter admissibility", F), ("analysis/synthesis pairs", B)],
     "TLA+ Transform model (TLC) + trace validation of round trips of planned configurations",
     "TLC checks on the Transform state machine that every order of analysis/synthesis steps reconstructs every degree; round "
     "trips of the real code over the planned configurations are validated to 1e-9. Sampled beyond the plan's bounds.")
prop("C02", "All analysis backends compute the same coefficients",
     "For every valid configuration and signal that the backends accept, the wavelet and scaling coefficients of the looped, C, "
     "JAX, precompute-JAX and precompute-torch analyses equal those of the base analysis, scale by scale.",
     IC, "all " + DOM + ", and all signals",
     "tests compare backends for few configurations with L=8 and loose conditions; per-scale indexing depends on every parameter",
     ALLT + [C], [("per-scale band limits and kernel indices", W), ("precomputed kernels", C)],
     "TLA+ specification; planned calls replayed in all backends, traces validated by TLC",
     "Differential over planned configurations; residual <=1e-9 relative to the largest coefficient.")
prop("C03", "All synthesis backends compute the same signal",
     "For every valid configuration and arbitrary band-limited wavelet and scaling coefficients (not only those produced by an "
     "analysis), the looped, C, JAX, precompute-JAX and precompute-torch syntheses return the same signal as the base synthesis.",
     IC, "all " + DOM + ", and all band-limited coefficient sets, including inconsistent ones",
     "tests only synthesise coefficients that come from an analysis, which hides errors outside the range of analysis",
     ALLT + [C], [("per-scale band limits and kernel indices", W)],
     "TLA+ specification; planned calls replayed in all backends, traces validated by TLC",
     "Differential over planned configurations with random coefficients outside the range of analysis.")
prop("C04", "Filter banks are admissible and finite",
     "For every L, N, J_min, lam and spin, the directional filter bank is finite everywhere, and at every degree l>=|spin| the "
     "squared filters of all scales plus the squared scaling filter add up to exactly one in the transform's normalisation; "
     "below |spin| every filter is zero.",
     IC, "L up to 256, lam integer and fractional, powers of lam and their neighbours, all J_min, N, spins, all implementations",
     "tests check admissibility indirectly through round trips at L=8",
     [F], [("k_lam, tiling_integrand", F), ("filters_directional(_vectorised,_jax)", F)],
     "TLA+ Kernels model (TLC) + trace validation of filter banks",
     "TLC checks the partition of unity of the specified kernels exhaustively on a grid; the real banks are validated per degree to 1e-9.")
prop("C05", "Filter implementations agree",
     "The looped, vectorised and JAX constructions of the axisymmetric and directional filters, and their torch outputs, return "
     "the same filters for every L, N, J_min, lam, spin and spin0, all of the prescribed shape. With spin0 nonzero every filter is "
     "the spin-0 filter times (-1)^spin0 sqrt((l+|spin0|)!/(l-|spin0|)!) (inverted for negative spin0).",
     IC, "all valid L, N, J_min, lam, spin, spin0", "tests compare them at one L and never with spin0 or J_min above 1",
     [F], [("filters_axisym*, filters_directional*", F), ("tiling_direction*", F), ("spin_normalization*", F)],
     "TLA+ Kernels model + trace validation of all implementations against each other",
     "Differential over planned configurations; the spin-lowering factor is computed by the specification.")
prop("C06", "Wavelets have the specified tiling profile and compact support",
     "Scale j responds only to degrees strictly between lam^(j-1) and lam^(j+1), the scaling filter only to degrees below "
     "lam^J_min, scales below J_min are zero, and the squared profile of each is given by differences of the Schwartz-function "
     "generator of the tiling, non-negative throughout.",
     IC, "all L, lam (integer and fractional), J_min, scale and degree",
     "tests compare against one stored reference at most", [F], [("k_lam, tiling_integrand, part_scaling_fn", F)],
     "TLA+ Generator/Kernels (fixed-point) model + trace validation of filter profiles",
     "The generator is evaluated inside TLA+ by Simpson quadrature in fixed point; real profiles match to 2e-5, supports exactly.")
prop("C07", "Directional component is the binomial steerable one",
     "Within each degree l the filter's energy over the azimuthal orders m is the symmetric binomial distribution with "
     "min(N-1,l) (or l-1 when the parity requires it) trials, only orders with N+m odd and |m|<N occur, it sums to one, and all "
     "components have phase 1 for odd N and i for even N, identically at every scale.",
     IC, "all L, N<=L, l, m, in all implementations", "tests compare implementations at L=8..10 only",
     [F], [("tiling_direction, tiling_direction_jax", F)],
     "TLA+ Kernels model (exact binomials) + trace validation",
     "TLC computes the binomial rows; the real bank's split is validated to ~1e-7 for all N<=L<=14 and selected large N.")
prop("C08", "Tiling geometry is exact",
     "The number of scales, the maximum scale, and the harmonic and azimuthal band-limits and lower limit of every scale and of "
     "the scaling function are the exact functions of L, N, J_min and lam (least J with lam^J>=L; ceil(lam^(j+1)) capped at L; "
     "parity-preserving N), for integer and fractional lam, at exact powers as well.",
     ["configurations"], "all L up to 4096, N, J_min, rational lam",
     "floating-point logs and powers fail only at particular (L, lam)", [S],
     [("j_max, wav_j_bandlimit, LN_j, scal_bandlimit, L0_j, n_scales", S)],
     "TLA+ Tiling model (TLC, exact rationals) + trace validation of the geometry functions",
     "Facts of the tiling model-checked on 2<=L<=48 x 8 lam; the code compared with exact integers on >1000 configurations.")
prop("C09", "Array shapes, constructors and the coefficient checker are consistent",
     "For every configuration and sampling (HEALPix included) the advertised shapes, the arrays built by the constructors, the "
     "coefficients returned by every backend's analysis and the signal returned by synthesis have the prescribed shapes in double "
     "precision; constructed arrays are zero, complex and separate; the checker accepts exactly well-shaped coefficient sets.",
     IC, "all configurations and samplings, all ways a coefficient set can be wrong in one array",
     "tests use L=8 and two lam", [S] + ALLT, [("scal_shape, wav_shape_j, construct_*, wavelet_shape_check", S)],
     "TLA+ Tiling model (TLC) + trace validation of shapes and checker verdicts",
     "Shapes computed exactly in TLA+; checker probed with single perturbations of every planned configuration.")
prop("C10", "Analysis applies exactly its filters in harmonic space",
     "At every scale the Wigner coefficient (l,m,n) of the wavelet coefficients is the signal's (l,m) coefficient times the "
     "conjugate filter (l,n) times the Wigner normalisation, the same factor for every m, and the scaling coefficients are the "
     "signal's times the scaling filter; no other degree or order is touched.",
     IC, "all configurations, degrees, orders m, orientations n, backends", "tests never look at individual harmonic coefficients",
     ALLT, [("per-scale harmonic product", B)],
     "TLA+ Kernels/Transform model + trace validation of measured harmonic gains",
     "Measured gains of every (j,l,n) compared with the specification's fixed-point kernels (2e-5), m-independence to 1e-9.")
prop("C11", "Synthesis applies exactly its filters in harmonic space",
     "Synthesising arbitrary coefficients gives, at (l,m), the sum over scales and orientations n of the coefficient (l,m,n) times "
     "the filter (l,n) times the Wigner normalisation, plus the scaling coefficient times the scaling filter; a coefficient of one "
     "degree never leaks to another.",
     IC, "all configurations, single-scale excitations, degrees, orders, orientations, backends",
     "tests only see the sum of all scales on coefficients produced by analysis", ALLT, [("per-scale harmonic sum", B)],
     "TLA+ Kernels/Transform model + trace validation of measured harmonic gains",
     "Each scale excited alone with phase-random single (l,m)->n patterns; gains against TLA+ kernels, leakage to 1e-9.")
prop("C12", "Analysis conserves energy (tight frame)",
     "The energies of the wavelet coefficients on the rotation group plus the energy of the scaling coefficients add up to the "
     "energy of the signal, for every signal and configuration; each scale receives exactly the share its filter prescribes.",
     IC, "all configurations, signals, backends", "no test computes energies", ALLT + [F], [("admissibility, normalisation", F)],
     "TLA+ Transform model (Conserves invariant) + trace validation of measured energies",
     "TLC checks conservation in every state of the model; measured totals to 1e-9, per-scale shares to 2e-5.")
prop("C13", "Real signals are handled exactly by the real path",
     "For a real spin-0 signal analysis with reality=True returns the same coefficients as the complex path and these are real, "
     "and synthesis of real coefficients with reality=True returns the same real signal as the complex path, in every backend.",
     IC, "all real signals and real coefficients, both parities of N, all samplings and backends",
     "tests run the real path on round trips only, where symmetric errors cancel", ALLT,
     [("conjugate-symmetry completion", W)],
     "TLA+ specification + trace validation of paired real/complex runs", "Paired runs over planned configurations, 1e-9.")
prop("C14", "Wavelets straight from harmonic coefficients equal the analysis",
     "Given the harmonic coefficients of a signal, the harmonic entry point of every backend returns exactly the wavelet "
     "coefficients of the corresponding analysis, for all scales J_min..J or only up to a requested maximum scale, with or without "
     "spherical kernels in the precomputes.",
     IC, "all configurations and all J_min<=J_max<=J", "tests use the default J_max only", [W, WC, WP, WT, S],
     [("flm_to_analysis", W), ("generate_wigner_precomputes", C)],
     "TLA+ Tiling kernel-index model + trace validation", "Differential against base analysis over planned (configuration, J_max).")
prop("C15", "Precomputes and defaults change nothing but speed",
     "Passing precomputed filters or kernels, omitting those that are optional, or passing kernels generated with or without the "
     "spherical part gives the same coefficients and signals as computing on the fly; torch and JAX kernels are identical and one "
     "kernel per distinct scale geometry is generated. Omitting any optional argument is the same as passing its documented "
     "default (N=1, J_min=0, lam=2, spin 0, mw sampling, complex signal).",
     IC, "all configurations and combinations of supplied/omitted optional arguments",
     "tests always pass both filters and precomputes", [C, W, WC, WP, WT], [("generate_full_precomputes, generate_wigner_precomputes", C)],
     "TLA+ Tiling kernel-index model + trace validation", "Paired calls over planned configurations.")
prop("C16", "Calls are pure and independent of history",
     "Whatever sequence of calls a process makes (different configurations, backends, rejected calls, overwritten results, "
     "memory layouts, concurrent threads), every call returns the value determined by its arguments alone, and leaves its "
     "arguments, earlier results and global numerical state unchanged.",
     ["histories", "schedules", "inputs"], "all histories of API calls, including several threads calling at once",
     "each test makes one isolated call sequence", ALLT + [F, S, C], [("no shared mutable state", W)],
     "TLA+ Session state machine (TLC) + replay of generated histories, every step validated against it",
     "Session model-checked on short histories and Overlap shows overlapping calls equal a sequential history; seeded random walks through its transition relation are replayed in one process each "
     "and every live object is re-observed after every step; threads run freely and under deterministic preemption at every source line.")
prop("C17", "Gradients through the transforms are exact",
     "Automatic differentiation through analysis, synthesis and the harmonic entry point (JAX, precompute JAX, torch, and the C "
     "backend for complex signals off dh sampling) returns the exact derivative of the transform for every input and cotangent.",
     IC, "all configurations, inputs and directions", "tests check gradients at one configuration with coarse finite differences",
     [W, WC, WP, WT], [("differentiable expressions, in-place free accumulation", W)],
     "TLA+ specification (linearity) + trace validation of adjoint/derivative residuals",
     "Derivative of a quadratic functional along random directions against the exact value; known findings pin s2fft limits.")
prop("C18", "Invalid requests are rejected, valid ones are not",
     "A lowest scale outside 0<=J_min<J is rejected with ValueError by every filter constructor and by the base analyses and no "
     "valid one is; every other transform with default filters rejects it too, and an unknown sampling scheme is rejected by all; missing precomputes and HEALPix in the C backend raise ValueError; coefficient sets with a missing, extra, "
     "wrongly shaped or misordered array are rejected by synthesis.",
     IC, "all configurations around the boundaries of validity", "tests cover a handful of invalid values",
     ALLT + [F, S], [("argument checks", F), ("wavelet_shape_check", S)],
     "TLA+ Tiling model + trace validation of outcomes at and around boundaries", "Outcome of every planned boundary call is computed by the specification.")
prop("C19", "Scattering returns the modulus of the wavelet coefficients",
     "With scattering enabled the base analysis returns, for every scale, the elementwise modulus of the wavelet coefficients of "
     "the plain analysis (real and non-negative values) and the same scaling coefficients.",
     IC, "all configurations and signals", "no existing test enables scattering", [B], [("scattering branch of analysis", B)],
     "TLA+ specification + trace validation", "Paired plain/scattering runs.")
prop("C20", "Multiresolution storage loses nothing",
     "Each scale's multiresolution coefficients are the band-limited restriction of its full-resolution coefficients and the "
     "full-resolution ones carry nothing outside that band, for the scaling coefficients too; both invert exactly.",
     IC, "all configurations and signals", "tests use multiresolution=True for most runs and never compare the two",
     [B, S], [("LN_j, scal_bandlimit", S), ("multiresolution branches", B)],
     "TLA+ Transform model (BandsHold, OrientationsHold invariants) + trace validation",
     "TLC checks that bands contain all energy; measured Wigner coefficients compared to 1e-9.")
prop("C21", "HEALPix backends agree",
     "On HEALPix sampling (spin 0, every stored band-limit at least 2*nside) the looped, precompute-JAX and precompute-torch "
     "transforms, and the JAX one for N=1 complex signals, return the same coefficients and signals as the base transforms; the "
     "harmonic entry point agrees as well.",
     IC, "all nside, L, N, J_min, lam in that domain", "tests run one HEALPix configuration with a loose tolerance",
     ALLT + [C], [("nside plumbing", C)],
     "TLA+ specification + trace validation", "Differential over planned HEALPix configurations, nside 2 and 4.")
prop("C22", "Transforms are linear",
     "Analysis and synthesis are linear: they respect sums and scalings of any amplitude and map zero to zero, in every backend.",
     IC, "all configurations, pairs of inputs and amplitudes from 1e-100 to 1e100", "tests never combine inputs", ALLT,
     [("linear harmonic products", B)], "TLA+ specification + trace validation", "Residuals relative to scale, over planned configurations.")
prop("C23", "Scales do not depend on J_min or on a larger band-limit",
     "For a fixed signal the wavelet coefficients of scale j are the same for every J_min<=j, raising the band-limit of the "
     "transform leaves the content of all lower scales and of the scaling function unchanged, and scales wholly above the signal's "
     "band are empty.",
     IC, "all configurations, J_min pairs and band-limit increases", "tests never relate two configurations", [F, S] + ALLT,
     [("k_lam depends on l/lam^j only", F)], "TLA+ Kernels model (Refines) + trace validation", "Metamorphic pairs over planned configurations.")
prop("C24", "Spin signals are transformed exactly",
     "Signals of any spin 0<|spin|<L of either sign (as far as s2fft's own spin transforms are accurate) are analysed with the filter gains of the specification at degrees l>=|spin|, "
     "reconstructed perfectly, and treated identically by all backends, also where the scaling function or a scale holds no degree "
     ">=|spin|.",
     IC, "all spins of both signs and all configurations", "tests use spin 0 and 2 at L=8", ALLT + [F, C],
     [("spin handling in the spherical transforms", W)], "TLA+ Kernels/Transform model + trace validation", "Gains, round trips and agreement over planned spins.")

prop("C25", "A result does not depend on how the call is made",
     "For fixed argument values every way of making a call gives the same result, in every backend that takes that form: keyword or "
     "positional arguments, coefficient lists or tuples, any memory layout of the arrays (C or Fortran order, strided views, read-only), a real signal or "
     "the same signal stored as complex, NumPy integers for the parameters, and for the JAX and precompute-JAX transforms jit, "
     "filters and kernels passed as traced arguments, vmap over a batch of signals and forward-mode derivatives, for torch with or "
     "without gradient tracking.",
     IC, "all configurations, both directions, all forms of a call",
     "tests call each function in one form only, on contiguous complex arrays, never under vmap and jit only at L=8", ALLT,
     [("static arguments of jit, loops over scales", W), ("precomputed kernels", WP)],
     "TLA+ Transform model (the map is linear and pure) + planned forms of each call, traces validated by TLC",
     "Each form compared to the plain call, residual 1e-9. C backend excluded from traced and strided forms (documented limits).")
prop("C26", "Wavelet coefficients rotate with the signal",
     "Rotating a signal on the sphere rotates its coefficients: the analysis of R f equals R applied to the wavelet coefficients of "
     "f (left translation on the rotation group, every scale and orientation) and to the scaling coefficients; synthesis commutes "
     "likewise. The coefficients carry only orientations |n|<N of the parity of N-1 (steerability).",
     IC, "all rotations (Euler angles) and all configurations and signals, including spin signals",
     "no test compares transforms of two related signals", ALLT + [F],
     [("harmonic products with m-independent kernels", B), ("Wigner transforms", W)],
     "TLA+ Symmetry model (TLC) + trace validation of rotated calls",
     "TLC checks covariance of the specified maps under words of exact rotations of a small group; real calls rotated by generic "
     "Euler angles are compared to 1e-9.")

with open(os.path.join(R, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"] or ["public functions of the files above"], hook_needed=None))) + "\n")
json.dump(dict(
    version=1,
    setup_cmd="tlc -h > /dev/null 2>&1 || true; /opt/venv/bin/python -c 'import jax, torch, s2fft'",
    checks=[dict(property=p["id"], quick_cmd="python3 harness/run.py " + p["id"],
                 thorough_cmd="VERIF_TIER=thorough python3 harness/run.py " + p["id"],
                 evidence_file="evidence/%s.json" % p["id"], technique=p["technique"],
                 level="model_checking", level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="Specification in TLA+ (spec/), checked with TLC; no hooks in /repo."),
    open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
