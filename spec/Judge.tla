-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Trace validation.                                                       *)
(*                                                                         *)
(* Plan  = the calls the specification asked for (Plan.tla).               *)
(* Trace = what the real code did, one event per call, measured at the     *)
(*         public API: integers only (2^28 fixed point for values, units   *)
(*         of 1e-12 for residuals that the specification says are zero).   *)
(*                                                                         *)
(* Every event is a behaviour of two states, recorded -> judged.  The step *)
(* evaluates the named clauses the specification attaches to that kind of  *)
(* call; the names of those that fail are printed.  The verdict is total:  *)
(* an event that carries an error, or is malformed, fails a clause instead *)
(* of stopping the validation.                                             *)
(***************************************************************************)
EXTENDS Kernels, Json, IOUtils

Plan  == ndJsonDeserialize(IOEnv.VPLAN)
Trace == ndJsonDeserialize(IOEnv.VTRACE)

TOL  == 1000         \* 1e-9: residuals of identities (observed: <= 1e-12)
GTOL == 5400         \* 2e-5: generator, quadrature of the code vs Simpson
SAT  == 2147483647

Small(x) == 0 <= x /\ x <= TOL
AllSmall(s) == \A i \in DOMAIN s : Small(s[i])
AllSmall2(s) == \A i \in DOMAIN s : AllSmall(s[i])
NoErrs(s) == \A i \in DOMAIN s : s[i] = ""
Near(a, b, tol) == Abs(a - b) <= tol
\* square of a signed fixed-point number, saturating
Sq(x) == LET a == Abs(x) IN IF a > ONE + (ONE \div 4) THEN 2 * ONE ELSE Mul(a, a)

Lam(e) == << e.p, e.q >>
Jof(e) == JMax(e.L, Lam(e))
Jcount(e) == NumScales(e.L, e.J0, Lam(e))
Fail(ok, name) == IF ok THEN {} ELSE {name}

\* shapes the specification requires
ExpWav(e) == [k \in 1..Jcount(e) |-> WavShape(e.L, e.N, Lam(e), e.J0 + k - 1, e.smp, e.nside, e.mr)]
ExpScal(e) == ScalShape(e.L, e.J0, Lam(e), e.smp, e.nside, e.mr)

(********************************* transforms ******************************)
Rt(e) ==
  Fail(e.shp = S2Shape(e.L, e.smp, e.nside), "shape")
  \cup Fail(e.wsh = ExpWav(e) /\ e.ssh = ExpScal(e), "coefficient-shapes")
  \cup Fail(Small(e.res), "reconstructs")

Agree(e) ==
  Fail(NoErrs(e.errs), "returns")
  \cup UNION { IF e.errs[i] # "" THEN {} ELSE Fail(AllSmall(e.ress[i]), "agrees-" \o e.bks[i]) : i \in DOMAIN e.errs }

(***************************************************************************)
(* Harmonic action.  At scale j the Wigner coefficient of degree l and     *)
(* orientation n is the signal's coefficient times conj(Psi^j_ln), the     *)
(* same for every m; synthesis multiplies by Psi^j_ln.                     *)
(***************************************************************************)
Expected2(e, kt, dt, j, l, n) ==
  IF l < Abs(e.spin) \/ l = 0 THEN 0
  ELSE Mul(Kappa2(kt, e.J0, j, l), DirWT(dt, e.N, l, n))
\* |g|^2 matches; phase 1 (N odd), i (N even); s = -1 for the conjugate
PhaseOK(e, re, im, s) ==
  IF PhaseReal(e.N) THEN re >= -GTOL /\ Abs(im) <= GTOL
  ELSE s * im >= -GTOL /\ Abs(re) <= GTOL
GainRows(e, kt, dt, s) ==
  \A k \in 1..Jcount(e) : \A r \in DOMAIN e.rows[k] :
    LET row == e.rows[k][r] IN
    /\ row[3] # SAT /\ row[4] # SAT
    /\ Near(Sq(row[3]) + Sq(row[4]), Expected2(e, kt, dt, e.J0 + k - 1, row[1], row[2]), GTOL)
GainPhase(e, s) ==
  \A k \in DOMAIN e.rows : \A r \in DOMAIN e.rows[k] :
    LET row == e.rows[k][r] IN PhaseOK(e, row[3], row[4], s)
ScalRows(e, kt) ==
  \A r \in DOMAIN e.srows : LET row == e.srows[r] IN
    /\ row[2] # SAT /\ row[3] # SAT
    /\ Near(Sq(row[2]), IF row[1] < Abs(e.spin) THEN 0 ELSE Phi2(kt, e.J0, row[1]), GTOL)
    /\ Abs(row[3]) <= 4 /\ row[2] >= -4
GainCommon(e, s) ==
  LET kt == KTable(e.L, Lam(e))  dt == DirTable(e.N) IN
  IF Len(e.rows) # Jcount(e) THEN {"scales"}
  ELSE Fail(GainRows(e, kt, dt, s), "gain")
       \cup Fail(GainPhase(e, s), "phase")
       \cup Fail(AllSmall(e.spread), "azimuth-independent")
       \cup Fail(ScalRows(e, kt), "scaling-gain")
       \cup Fail(Small(e.sspread), "scaling-azimuth-independent")
Gain(e) == GainCommon(e, -1)
SynGain(e) == GainCommon(e, 1) \cup Fail(AllSmall(e.leak), "no-other-degree") \cup Fail(Small(e.sleak), "scaling-no-other-degree")

Weighted(pl, f(_)) == FoldLeft(LAMBDA a, l : a + Mul(IMin(ONE, IMax(0, pl[l])), f(l - 1)), 0, Upto(Len(pl)))
Energy(e) ==
  LET kt == KTable(e.L, Lam(e)) IN
  IF Len(e.es) # Jcount(e) \/ Len(e.pl) # e.L THEN {"scales"}
  ELSE Fail(Small(e.res), "conserved")
       \cup Fail(\A k \in DOMAIN e.es :
                   Near(e.es[k], Weighted(e.pl, LAMBDA l : IF l = 0 THEN 0 ELSE Kappa2(kt, e.J0, e.J0 + k - 1, l)), GTOL),
                 "distribution")
       \cup Fail(Near(e.e0, Weighted(e.pl, LAMBDA l : Phi2(kt, e.J0, l)), GTOL), "scaling-energy")

Real(e) ==
  Fail(AllSmall(e.same), "real-path-same") \cup Fail(AllSmall(e.imag), "real-coefficients")
  \cup Fail(Small(e.syn), "real-synthesis-same") \cup Fail(Small(e.synimag), "real-output")

Flm(e) ==
  LET n == (IF e.jmax >= 0 THEN e.jmax ELSE Jof(e)) - e.J0 + 1 IN
  Fail(NoErrs(e.errs), "returns")
  \cup UNION { IF e.errs[i] # "" THEN {}
               ELSE Fail(e.cnt[i] = n, "scales-" \o e.bks[i]) \cup Fail(AllSmall(e.ress[i]), "wavelet-part-" \o e.bks[i])
               : i \in DOMAIN e.errs }

PreEq(e) ==
  Fail(AllSmall(e.ana), "analysis-same") \cup Fail(AllSmall(e.syn), "synthesis-same")
  \cup Fail(AllSmall(e.flm), "flm-same")
Kern(e) ==
  Fail(\A i \in DOMAIN e.nk : \A k \in DOMAIN e.nk[i] : e.nk[i][k] = NumKernels(e.L, e.J0, Lam(e)), "kernel-count")
  \cup Fail(AllSmall(e.res), "kernels-same")
  \cup Fail(\A i \in DOMAIN e.sph : e.sph[i] = << 0, 0 >>, "no-spherical")

(********************************* filters *********************************)
El(e) == ElMin(e.spin, e.spin0)
Bank(e) ==
  LET kt == KTable(e.L, Lam(e)) J == Jof(e) IN
  Fail(e.psh = << J + 1, e.L, 2 * e.L - 1 >> /\ e.fsh = << e.L >>, "shape")
  \cup Fail(e.finite = 1, "finite")
  \cup (IF Len(e.one) # e.L \/ Len(e.zero) # e.L THEN {"degrees"}
        ELSE Fail(\A l \in 0..(e.L - 1) : l >= El(e) => Small(e.one[l + 1]), "admissible")
             \cup Fail(\A l \in 0..(e.L - 1) : l < El(e) => e.zero[l + 1] = 0, "below-spin"))
BankProfile(e) ==
  LET kt == KTable(e.L, Lam(e)) J == Jof(e) IN
  IF e.psh # << J + 1, e.L, 2 * e.L - 1 >> \/ Len(e.phi2) # e.L THEN {"shape"}
  ELSE Fail(\A j \in 0..J : \A l \in 0..(e.L - 1) :
              Near(e.prof[j + 1][l + 1], IF l < El(e) \/ l = 0 THEN 0 ELSE Kappa2(kt, e.J0, j, l), GTOL), "generator")
       \cup Fail(\A j \in 0..J : \A l \in 0..(e.L - 1) :
              (l < El(e) \/ l = 0 \/ Kappa2(kt, e.J0, j, l) = 0) =>
                 \* outside the open support the filter vanishes; inside it may be tiny
                 (e.prof[j + 1][l + 1] <= 64), "compact-support")
       \cup Fail(\A l \in 0..(e.L - 1) :
              Near(e.phi2[l + 1], IF l < El(e) THEN 0 ELSE Phi2(kt, e.J0, l), GTOL), "scaling-function")
       \cup Fail(Small(e.phineg), "scaling-sign")
\* the generator and the axisymmetric filters: k_j, k_{j+1} - k_j, k_{J0}
\* every gain is the same for all m, so the transform commutes with rotations;
\* only orientations of the parity of N-1 below N are present (steerability)
Rot(e) == Fail(Len(e.wav) = Jcount(e) /\ AllSmall(e.wav), "wavelets-rotate") \cup Fail(Small(e.scal), "scaling-rotates")
          \cup Fail(AllSmall(e.par), "steerable") \cup Fail(Small(e.syn), "synthesis-rotates")
\* however the call is made, the result is that of the plain call
Form(e) == Fail(Small(e.res), "same-as-plain-call")
           \cup Fail(e.n = (IF e.op = "syn" THEN 1 ELSE Jcount(e) + (IF e.op = "ana" THEN 1 ELSE 0)) * (IF e.form = "vmap" THEN 3 ELSE 1), "all-arrays")
KLam(e) ==
  LET kt == KTable(e.L, Lam(e)) J == Jof(e) IN
  IF e.ksh # << J + 2, e.L >> \/ e.psh # << J + 1, e.L >> \/ e.fsh # << e.L >> THEN {"shape"}
  ELSE Fail(\A j \in 0..(J + 1) : \A l \in 0..(e.L - 1) :
              /\ Near(e.k[j + 1][l + 1], kt[j][l], GTOL)
              /\ (j > J \/ (IF j = 0 THEN l = 0 ELSE ~ GtPow(l, Lam(e), j - 1))) => e.k[j + 1][l + 1] \in {ONE, ONE - 1}
              /\ (j <= J /\ j > 0 /\ GeqPow(l, Lam(e), IMax(0, j))) => e.k[j + 1][l + 1] = 0, "generator")
       \cup Fail(\A j \in 0..J : \A l \in 0..(e.L - 1) :
              Near(e.psi2[j + 1][l + 1], Kappa2(kt, e.J0, j, l), GTOL), "axisymmetric-wavelets")
       \cup Fail(\A l \in 0..(e.L - 1) : Near(e.phi2[l + 1], Phi2(kt, e.J0, l), GTOL), "axisymmetric-scaling")
       \cup Fail(AllSmall(e.one), "admissible")
Dir(e) ==
  LET dt == DirTable(e.N) IN
  Fail(\A r \in DOMAIN e.rows :
         LET l == e.rows[r][1]  ws == e.rows[r][2]  M == IMin(l, e.N + 1) IN
         IF l = 0 THEN ws = << >>
         ELSE /\ Len(ws) = 2 * M + 1
              /\ \A i \in DOMAIN ws : ws[i] # SAT /\ Near(ws[i], DirWT(dt, e.N, l, i - 1 - M), 2 * e.N + 8),
       "binomial")
  \cup Fail(\A r \in DOMAIN e.rows : e.rows[r][1] = 0 \/ e.rows[r][2] # << >>, "every-degree")
  \cup Fail(Len(e.rows) = e.L, "degrees")
  \cup Fail(Small(e.off) /\ Small(e.neg), "phase") \cup Fail(Small(e.outside), "azimuthal-band")
  \cup Fail(Small(e.uni), "separable")

\* binomial coefficients: exact while they fit, Pascal's rule above
Binom(e) ==
  Fail(Len(e.rows) = 29 /\ \A g \in 0..28 : e.rows[g + 1] = BinomInt(g), "binomial-coefficients")
  \cup Fail(AllSmall(e.pascal), "pascal")
\* (l+s)!/(l-s)! with s = |spin0|: the squared spin-lowering factor
RECURSIVE LowFactor(_, _, _)
LowFactor(l, s, k) == IF k > s THEN 1 ELSE (l + k) * LowFactor(l, s, k + 1)
LowRows(e, rows) ==
  LET s == Abs(e.spin0) IN
  /\ Len(rows) = e.L - El(e)
  /\ \A i \in DOMAIN rows : LET r == rows[i] l == r[1] IN
       /\ r[2] = (IF e.spin0 % 2 = 0 THEN 1 ELSE -1)
       /\ Small(r[3])
       /\ IF i = 1 THEN Near(r[4], 1000 * LowFactor(El(e), s, 1 - s), 2)
          ELSE Near(r[5], Ratio(l + s, 8 * (l - s)), 8)
BanksEq(e) ==
  Fail(NoErrs(e.errs), "returns")
  \cup UNION { IF e.errs[i] # "" THEN {}
               ELSE Fail(AllSmall(e.ress[i]), "agrees-" \o e.impls[i])
                    \cup Fail(e.shp[i] = << << Jof(e) + 1, e.L, 2 * e.L - 1 >>, << e.L >> >>, "shape-" \o e.impls[i])
               : i \in DOMAIN e.errs }
  \cup Fail(AllSmall(e.ax), "axisymmetric-agree")
  \cup Fail(\A i \in DOMAIN e.low : LowRows(e, e.low[i]), "spin-lowering")

(********************************* geometry ********************************)
Geom(e) ==
  LET lam == Lam(e) L == e.L  N == e.N IN
  Fail(e.J = Jof(e), "J") \cup Fail(e.ns = Jcount(e), "count")
  \cup Fail(e.sc = << ScalL(L, e.J0, lam, TRUE), L >>, "scaling-bandlimit")
  \cup Fail(Len(e.rows) = 2 * Jcount(e), "rows")
  \cup Fail(\A i \in DOMAIN e.rows :
         LET r == e.rows[i] mr == r[1] = 1 j == r[2] IN
         j <= Jof(e) => (r[3] = WavL(L, lam, j, mr) /\ r[4] = L0(lam, j)), "bandlimits")
  \cup Fail(\A i \in DOMAIN e.rows :
         LET r == e.rows[i] mr == r[1] = 1 j == r[2] IN
         j <= Jof(e) => (r[5] = WavL(L, lam, j, mr) /\ r[6] = WavN(L, N, lam, j, mr) /\ r[7] = WavL0(L, lam, j, mr)), "LN")
  \cup Fail(\A i \in DOMAIN e.rows :
         LET r == e.rows[i] mr == r[1] = 1 j == r[2] IN
         j <= Jof(e) => << r[8], r[9], r[10] >> = FlmnShape(L, N, lam, j, mr), "flmn-shape")

Shp(e) ==
  LET lam == Lam(e)
      jm == IF e.jmax >= 0 THEN e.jmax ELSE Jof(e)
      fl == [k \in 1..Jcount(e) |-> FlmnShape(e.L, e.N, lam, e.J0 + k - 1, e.mr)]
      Ls == ScalL(e.L, e.J0, lam, e.mr) IN
  Fail(e.scal = ExpScal(e), "scaling-shape") \cup Fail(e.wav = ExpWav(e), "wavelet-shapes")
  \cup Fail(e.cf = ExpWav(e) /\ e.cfs = WavShape(e.L, e.N, lam, Jof(e) - 1, e.smp, e.nside, e.mr), "construct_f")
  \cup Fail(e.cfl = fl /\ e.cfls = FlmnShape(e.L, e.N, lam, Jof(e) - 1, e.mr), "construct_flmn")
  \cup Fail(e.clm = FlmShape(Ls) /\ e.clmj = FlmShape(Ls), "construct_flm")
  \cup Fail(e.cflj = SubSeq(fl, 1, jm - e.J0 + 1), "construct_flmn_jax")
  \cup Fail(e.cflt = SubSeq(fl, 1, jm - e.J0 + 1), "construct_flmn_torch")
  \cup Fail(e.ncf = << jm - e.J0 + 1, jm - e.J0 + 1 >>, "construct_f_list")
  \cup Fail(e.zeros = 1 /\ e.cplx = 1 /\ e.sep = 1, "zeroed-separate")
  \cup Fail(\A i \in DOMAIN e.acc : e.acc[i] = "ok", "accepts-valid")
  \cup Fail(\A i \in DOMAIN e.rej : e.rej[i] = "AssertionError", "rejects-wrong")
Out(e) ==
  Fail(e.wsh = ExpWav(e), "wavelet-shapes") \cup Fail(e.ssh = ExpScal(e), "scaling-shape")
  \cup Fail(e.rsh = S2Shape(e.L, e.smp, e.nside), "signal-shape")
  \cup Fail(e.dbl = 1, "double-precision") \cup Fail(e.finite = 1, "finite")

(********************************** the rest *******************************)
Lin(e) ==
  Fail(Small(e.add) /\ Small(e.split), "analysis-additive") \cup Fail(AllSmall(e.amp), "analysis-homogeneous")
  \cup Fail(e.zero = 0, "analysis-zero") \cup Fail(Small(e.sadd) /\ Small(e.ssplit) /\ Small(e.sparts), "synthesis-additive")
  \cup Fail(AllSmall(e.samp), "synthesis-homogeneous") \cup Fail(e.szero = 0, "synthesis-zero")
Nest(e) ==
  Fail(AllSmall(e.j0), "independent-of-J0") \cup Fail(AllSmall(e.l), "independent-of-L")
  \cup Fail(AllSmall(e.top), "empty-above") \cup Fail(Small(e.refine), "scaling-independent-of-L")
NestBank(e) ==
  Fail(Small(e.psi) /\ Small(e.phi), "independent-of-L") \cup Fail(e.above = 0, "empty-above")
  \cup Fail(e.beyond = 0, "scaling-band") \cup Fail(AllSmall(e.j0), "independent-of-J0")
Mr(e) ==
  Fail(AllSmall(e.res) /\ Small(e.sres), "same-coefficients") \cup Fail(AllSmall(e.out) /\ Small(e.sout), "nothing-dropped")
  \cup Fail(Small(e.rt), "full-resolution-inverts")
  \cup Fail(Len(e.sh) = Jcount(e) + 1 /\ \A i \in 1..Jcount(e) : e.sh[i] = SO3Shape(e.L, e.N, e.smp, e.nside), "full-resolution-shapes")
Scat(e) ==
  Fail(e.n = Jcount(e), "scales") \cup Fail(AllSmall(e.res), "modulus") \cup Fail(Small(e.scal), "scaling-untouched")
  \cup Fail(e.neg = 0 /\ e.imag = 0, "non-negative")
Hpx(e) ==
  Fail(NoErrs(e.errs) /\ NoErrs(e.serrs) /\ NoErrs(e.ferrs), "returns")
  \cup Fail(AllSmall2(e.ress), "analysis-agrees") \cup Fail(AllSmall2(e.sress), "synthesis-agrees")
  \cup Fail(AllSmall2(e.fress), "harmonic-input")
  \cup Fail(e.wsh = ExpWav(e) /\ e.ssh = ExpScal(e), "shapes")
Grad(e) == Fail(Small(e.val), "value") \cup Fail(Small(e.der), "derivative") \cup Fail(e.nonzero = 1, "non-zero")

WavShapes(e) == [k \in 1..Jcount(e) |-> WavShape(e.L, e.N, Lam(e), e.J0 + k - 1, e.smp, NONE, e.mr)]
Reversible(e) == LET s == WavShapes(e) IN \A k \in DOMAIN s : s[k] = s[Len(s) + 1 - k]
TransformOps == { "base_ana", "base_syn", "loop_ana", "loop_syn", "c_ana", "c_syn", "c_flm", "jax_ana", "jax_syn", "jax_flm",
                  "pre_ana", "pre_syn", "pre_flm", "torch_ana", "torch_syn", "torch_flm" }
\* rejected in whatever way: a lowest scale or a sampling scheme that does not exist
RejectOps == { "j0_" \o x : x \in TransformOps } \cup { "smp_" \o x : x \in TransformOps \cup {"shape_ana"} }
InvExpect(e) ==
  CASE e.op \in {"axi", "axivec", "axijax", "dir", "dirvec", "dirjax", "base", "loop"} ->
         (IF ValidJ0(e.L, e.J0, Lam(e)) THEN "ok" ELSE "ValueError")
    [] e.op \in {"pre_noker", "pre_noker_syn", "pre_noker_flm", "torch_noker", "torch_noker_syn", "torch_noker_flm",
                 "c_hpx", "c_HPX", "c_hpx_syn", "c_HPX_syn", "c_hpx_flm", "c_HPX_flm"} -> "ValueError"
    [] e.op \in RejectOps -> IF e.outcome = "ok" THEN "rejected" ELSE e.outcome
    [] e.op \in {"syn_base_order", "syn_loop_order"} -> (IF Reversible(e) THEN "ok" ELSE "AssertionError")
    [] OTHER -> "AssertionError"
Inv(e) == Fail(e.outcome = InvExpect(e), "outcome-" \o e.op)

Clauses(e) ==
  CASE e.err # "" -> {"returns"}
    [] e.kind = "rt" -> Rt(e)          [] e.kind \in {"ana", "syn"} -> Agree(e)
    [] e.kind = "gain" -> Gain(e)      [] e.kind = "syngain" -> SynGain(e)
    [] e.kind = "energy" -> Energy(e)  [] e.kind = "real" -> Real(e)
    [] e.kind = "flm" -> Flm(e)        [] e.kind = "pre" -> PreEq(e)
    [] e.kind = "kern" -> Kern(e)
    [] e.kind = "bank" -> IF e.prop = "C06" THEN BankProfile(e) ELSE Bank(e)
    [] e.kind \in {"dir", "tdir"} -> Dir(e)   [] e.kind = "binom" -> Binom(e)
    [] e.kind = "defs" -> Fail(\A k \in DOMAIN e.names : Small(e.res[k]), "documented-defaults")
          [] e.kind = "banks" -> BanksEq(e)
    [] e.kind = "geom" -> Geom(e)      [] e.kind = "shp" -> Shp(e)
    [] e.kind = "out" -> Out(e)        [] e.kind = "lin" -> Lin(e)
    [] e.kind = "nest" -> Nest(e)      [] e.kind = "mr" -> Mr(e)
    [] e.kind = "nb" -> NestBank(e)  [] e.kind = "klam" -> KLam(e) [] e.kind = "form" -> Form(e)
    [] e.kind = "rot" -> Rot(e)
    [] e.kind = "scat" -> Scat(e)      [] e.kind = "hpx" -> Hpx(e)
    [] e.kind = "grad" -> Grad(e)      [] e.kind = "inv" -> Inv(e)

\* the event answers the call that was planned, unaltered
Matches(i) == i <= Len(Plan) /\ \A f \in DOMAIN Plan[i] :
                f \in DOMAIN Trace[i] /\ Trace[i][f] = Plan[i][f]

VARIABLES i, judged
Init == i \in 1..Len(Trace) /\ judged = FALSE
Judged ==
  /\ ~ judged
  /\ judged' = TRUE /\ i' = i
  /\ LET bad == (IF Matches(i) THEN {} ELSE {"unplanned"}) \cup Clauses(Trace[i])
     IN \A c \in bad : PrintT(<< "FAIL", i, c >>)
Next == Judged
Spec == Init /\ [][Next]_<< i, judged >>
Complete == /\ Len(Trace) = Len(Plan)
            /\ TLCGet("stats").distinct = 2 * Len(Trace)
            /\ PrintT(<< "JUDGED", Len(Trace) >>)
=============================================================================
