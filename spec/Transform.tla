------------------------------ MODULE Transform ------------------------------
(***************************************************************************)
(* The wavelet transform as a state machine.                               *)
(*                                                                         *)
(* One behaviour analyses one band-limited signal and synthesises it from  *)
(* the coefficients.  A scale is one step; scales may be taken in any      *)
(* order (the implementations loop over them, a user may store them in any *)
(* order), the scaling coefficients are one further step, and synthesis    *)
(* accumulates each contribution.  Signals enter by degree: the transform  *)
(* is diagonal in (l,m), so its effect on a signal is the gain of every    *)
(* degree l (and orientation n), which is what the state records.          *)
(***************************************************************************)
EXTENDS Kernels, TLC

CONSTANTS Ls, Ns, Lams, Spins               \* the finite configuration space

VARIABLES
  cfg,       \* [L, N, J0, lam, spin, mr, kt]
  phase,     \* "idle" "analysis" "synthesis" "done"
  coef,      \* scale -> [band |-> <<L0,L,N>>, e2 |-> per-degree energy gain]
  scal,      \* << >> or << per-degree energy gain >>
  acc,       \* per-degree reconstruction gain accumulated so far
  used       \* contributions already synthesised (scales, or "scal")
vars == << cfg, phase, coef, scal, acc, used >>

J(c) == JMax(c.L, c.lam)
Lower(c) == Abs(c.spin)                     \* degrees below |spin| do not exist

\* energy of degree l captured at scale j, summed over orientations
ScaleEnergy(c, j) == [l \in 0..(c.L - 1) |->
   IF l < Lower(c) \/ l = 0 THEN 0 ELSE Kappa2(c.kt, c.J0, j, l)]
ScalingEnergy(c) == [l \in 0..(c.L - 1) |->
   IF l < Lower(c) THEN 0 ELSE Phi2(c.kt, c.J0, l)]
Band(c, j) == << WavL0(c.L, c.lam, j, c.mr), WavL(c.L, c.lam, j, c.mr), WavN(c.L, c.N, c.lam, j, c.mr) >>

Init == /\ cfg = << >> /\ phase = "idle" /\ coef = << >> /\ scal = << >>
        /\ acc = << >> /\ used = {}

Configure(c) ==
  /\ phase = "idle"
  /\ cfg' = c /\ phase' = "analysis"
  /\ coef' = [j \in {} |-> 0] /\ scal' = << >>
  /\ acc' = [l \in 0..(c.L - 1) |-> 0] /\ used' = {}

AnalyseScale(j) ==
  /\ phase = "analysis" /\ j \in Scales(cfg.L, cfg.J0, cfg.lam) \ DOMAIN coef
  /\ coef' = coef @@ (j :> [band |-> Band(cfg, j), e2 |-> ScaleEnergy(cfg, j)])
  /\ UNCHANGED << cfg, phase, scal, acc, used >>

AnalyseScaling ==
  /\ phase = "analysis" /\ scal = << >>
  /\ scal' = << ScalingEnergy(cfg) >>
  /\ UNCHANGED << cfg, phase, coef, acc, used >>

StartSynthesis ==
  /\ phase = "analysis" /\ scal # << >>
  /\ DOMAIN coef = Scales(cfg.L, cfg.J0, cfg.lam)
  /\ phase' = "synthesis" /\ UNCHANGED << cfg, coef, scal, acc, used >>

\* analysis gain times synthesis gain: the squared kernel, where stored
SynthScale(j) ==
  /\ phase = "synthesis" /\ j \in DOMAIN coef \ used
  /\ acc' = [l \in DOMAIN acc |-> acc[l] +
        (IF l >= coef[j].band[1] /\ l < coef[j].band[2] THEN coef[j].e2[l] ELSE 0)]
  /\ used' = used \cup {j}
  /\ UNCHANGED << cfg, phase, coef, scal >>

SynthScaling ==
  /\ phase = "synthesis" /\ -1 \notin used
  /\ acc' = [l \in DOMAIN acc |-> acc[l] +
        (IF l < ScalL(cfg.L, cfg.J0, cfg.lam, cfg.mr) THEN scal[1][l] ELSE 0)]
  /\ used' = used \cup {-1}
  /\ UNCHANGED << cfg, phase, coef, scal >>

Finish ==
  /\ phase = "synthesis" /\ used = DOMAIN coef \cup {-1}
  /\ phase' = "done" /\ UNCHANGED << cfg, coef, scal, acc, used >>

KTs == TLCEval([x \in Ls \X Lams |-> TLCEval(KTable(x[1], x[2]))])
Configs ==
  UNION { UNION { { [L |-> L, N |-> N, J0 |-> j0, lam |-> lam, spin |-> s, mr |-> mr,
                     kt |-> KTs[<< L, lam >>]] :
                      N \in Ns \cap 1..L, s \in {x \in Spins : Abs(x) < L},
                      mr \in BOOLEAN, j0 \in 0..(JMax(L, lam) - 1) }
                  : L \in Ls } : lam \in Lams }

Next == \/ \E c \in Configs : Configure(c)
        \/ \E j \in 0..20 : AnalyseScale(j) \/ SynthScale(j)
        \/ AnalyseScaling \/ StartSynthesis \/ SynthScaling \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Running == phase # "idle"
\* no contribution is ever counted twice or amplified
NeverExceeds == Running => \A l \in DOMAIN acc : 0 <= acc[l] /\ acc[l] <= ONE
\* C01: synthesis inverts analysis on every existing degree
Reconstructs == phase = "done" =>
  \A l \in DOMAIN acc : acc[l] = (IF l >= Lower(cfg) THEN ONE ELSE 0)
\* C11: the coefficients carry exactly the energy of the signal
Conserves == (phase = "synthesis") =>
  \A l \in DOMAIN acc :
    scal[1][l] + SumOver([j \in DOMAIN coef |-> coef[j].e2[l]], cfg.J0, J(cfg))
      = (IF l >= Lower(cfg) THEN ONE ELSE 0)
\* C20: nothing is lost by storing a scale on its own band only
BandsHold == Running => \A j \in DOMAIN coef : \A l \in DOMAIN acc :
  coef[j].e2[l] # 0 => coef[j].band[1] <= l /\ l < coef[j].band[2]
OrientationsHold == Running => \A j \in DOMAIN coef :
  \A l \in 1..(coef[j].band[2] - 1) : \A n \in 0..l :
     DirAllowed(cfg.N, l, n) => n < coef[j].band[3]
Terminates == (phase = "analysis") ~> (phase = "done")
=============================================================================
