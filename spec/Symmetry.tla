------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* Covariance of the directional transform.                                *)
(*                                                                         *)
(* A signal is rotated, analysed, its coefficients are rotated further and *)
(* synthesised, in any interleaving of rotations with the two transforms.  *)
(* Signals hold Gaussian integers per (l,m), coefficients per (l,m,n); the *)
(* rotations are the ones that stay in that ring: the quarter turn about   *)
(* the pole (i^-m) and the half turn about the y axis ((-1)^(l+m), m to    *)
(* -m), which generate a non-abelian group.  Real signals stay real.       *)
(***************************************************************************)
EXTENDS Kernels, TLC

CONSTANTS LS, NS, MaxWord
VARIABLES L, N, f0, f, W, r, word
vars == << L, N, f0, f, W, r, word >>

LM(l0) == { << l, m >> \in (0..(l0 - 1)) \X ((1 - l0)..(l0 - 1)) : Abs(m) <= l }
LMN(l0, n0) == { << l, m, n >> \in (0..(l0 - 1)) \X ((1 - l0)..(l0 - 1)) \X ((1 - n0)..(n0 - 1)) :
                 Abs(m) <= l /\ Abs(n) <= l }
Z == << 0, 0 >>
CAdd(a, b) == << a[1] + b[1], a[2] + b[2] >>
CScale(k, a) == << k * a[1], k * a[2] >>
Conj(a) == << a[1], -a[2] >>
\* i^k a
ITurn(k, a) == LET q == k % 4 IN
  IF q = 0 THEN a ELSE IF q = 1 THEN << -a[2], a[1] >> ELSE IF q = 2 THEN << -a[1], -a[2] >> ELSE << a[2], -a[1] >>
Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1

\* the rotations act on m alone, whatever the other indices
RotLM(op, g) == [x \in DOMAIN g |->
  IF op = "turn" THEN ITurn(0 - x[2], g[x])
  ELSE CScale(Sgn(x[1] + x[2]), g[<< x[1], -x[2] >>])]
RotLMN(op, g) == [x \in DOMAIN g |->
  IF op = "turn" THEN ITurn(0 - x[2], g[x])
  ELSE CScale(Sgn(x[1] + x[2]), g[<< x[1], -x[2], x[3] >>])]
Word(ws, g) == FoldLeft(LAMBDA h, op : RotLM(op, h), g, ws)
\* the same word applied in the order it was recorded
Gain(l, n) == IF DirAllowed(N, l, Abs(n)) THEN 1 + l + Abs(n) ELSE 0
Analyse(g) == [x \in LMN(L, N) |-> CScale(Gain(x[1], x[3]), g[<< x[1], x[2] >>])]
Sum2(l) == FoldLeft(LAMBDA a, n : a + (IF Abs(n - N) <= l THEN Gain(l, n - N) * Gain(l, n - N) ELSE 0), 0,
                    [i \in 1..(2 * N - 1) |-> i])
Synthesise(w) == [x \in LM(L) |-> FoldLeft(LAMBDA a, i :
    LET n == i - N IN IF Abs(n) > x[1] THEN a ELSE CAdd(a, CScale(Gain(x[1], n), w[<< x[1], x[2], n >>])),
    Z, [i \in 1..(2 * N - 1) |-> i])]
None == << >>

Signals == { [x \in LM(L) |-> IF x = a THEN << 1, 0 >> ELSE IF x = b THEN << 0, 2 >> ELSE Z] : a \in LM(L), b \in LM(L) }
RealSignal(g) == \A x \in DOMAIN g : g[<< x[1], -x[2] >>] = CScale(Sgn(x[2]), Conj(g[x]))
RealSignals == { [x \in LM(L) |-> IF x[2] = 0 THEN << IF x[1] = a[1] THEN 3 ELSE 1, 0 >>
                    ELSE IF x = a THEN << 1, 2 >>
                    ELSE IF << x[1], -x[2] >> = a THEN CScale(Sgn(x[2]), << 1, -2 >>) ELSE Z] : a \in LM(L) }

Init == /\ L \in LS /\ N \in { n \in NS : n <= L }
        /\ f0 \in Signals \cup RealSignals
        /\ f = f0 /\ W = None /\ r = None /\ word = << >>
RotateSignal(op) == /\ W = None /\ Len(word) < MaxWord
  /\ f' = RotLM(op, f) /\ word' = Append(word, op) /\ UNCHANGED << L, N, f0, W, r >>
DoAnalyse == W = None /\ W' = Analyse(f) /\ UNCHANGED << L, N, f0, f, r, word >>
RotateCoefs(op) == /\ W # None /\ r = None /\ Len(word) < MaxWord
  /\ W' = RotLMN(op, W) /\ word' = Append(word, op) /\ UNCHANGED << L, N, f0, f, r >>
DoSynthesise == W # None /\ r = None /\ r' = Synthesise(W) /\ UNCHANGED << L, N, f0, f, W, word >>
RotateResult(op) == /\ r # None /\ Len(word) < MaxWord
  /\ r' = RotLM(op, r) /\ word' = Append(word, op) /\ UNCHANGED << L, N, f0, f, W >>
Next == DoAnalyse \/ DoSynthesise \/ \E op \in {"turn", "flip"} : RotateSignal(op) \/ RotateCoefs(op) \/ RotateResult(op)
Spec == Init /\ [][Next]_vars

\* however rotations interleave with the transforms, only the word counts
Covariant == (W # None /\ r = None) => W = Analyse(Word(word, f0))
SynthesisCovariant == r # None =>
  LET g == Word(word, f0) IN r = [x \in LM(L) |-> CScale(Sum2(x[1]), g[x])]
Steerable == W # None => \A x \in DOMAIN W : W[x] # Z => (x[3] + N) % 2 = 1 /\ Abs(x[3]) < N
RealStaysReal == RealSignal(f0) =>
  /\ RealSignal(f) /\ (r # None => RealSignal(r))
=============================================================================
