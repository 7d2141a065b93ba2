-------------------------------- MODULE Plan ---------------------------------
(***************************************************************************)
(* What is executed on the real code: for each property a finite sequence  *)
(* of tasks drawn from the configuration space of the specification.  The  *)
(* draw is a pure function of the seed, so a run is reproducible.          *)
(***************************************************************************)
EXTENDS Tiling, TLC, Json, IOUtils

PROP == IOEnv.VPROP
SEED == atoi(IOEnv.VERIF_SEED) % 1000
DEEP == IOEnv.VERIF_TIER = "thorough"
Q(a, b) == IF DEEP THEN b ELSE a             \* quick / thorough budget

(************************** deterministic choice **************************)
Lcg(x) == (x * 75 + 74) % 65537
Rnd(salt, i, k, n) ==
  LET s == (SEED * 131 + salt * 6131 + i * 7919 + k * 10473) % 65537
  IN (Lcg(Lcg(Lcg((Lcg(s) + k * 311) % 65537))) \div 7) % n
Pick(seq, salt, i, k) == seq[1 + Rnd(salt, i, k, Len(seq))]

(************************** configuration space ***************************)
LamsAll == << <<2,1>>, <<3,1>>, <<3,2>>, <<2,1>>, <<5,2>>, <<5,1>>, <<7,2>>, <<4,1>>, <<2,1>>,
              <<4,3>>, <<7,4>>, <<8,3>>, <<5,4>> >>
\* powers of lam must fit in 32 bits up to lam^J >= L
LCap(lam) == IF lam = <<5,4>> THEN 8 ELSE IF lam = <<4,3>> THEN 14 ELSE 1000
Smps == << "mw", "mwss", "dh", "gl" >>

\* Where a backend accepts the configuration.  The exclusions are limits of
\* the libraries below s2wav; the pinned known findings exercise them.
Supported(bk, c) ==
  LET lam == << c.p, c.q >> IN
  /\ bk = "c" => \A j \in c.J0..JMax(c.L, lam) : WavN(c.L, c.N, lam, j, TRUE) <= WavL(c.L, lam, j, TRUE)
  /\ bk \in {"pre", "torch"} => c.N > 1 \/ c.smp \notin {"mw", "mwss"}
  /\ bk \notin {"base", "loop"} => c.mr /\ c.spin0 = 0

\* backends that compile per band-limit get few different ones in a run (they are
\* different for another seed), so that more configurations fit in the same time
Menu == << << 8, 5, 6, 9 >>, << 6, 4, 9, 7 >>, << 8, 7, 5, 10 >> >>[1 + (SEED % 3)]
Compiling == {"pre", "torch", "jax"}
DrawL(bks, salt, x, lo, hi) ==
  LET r == lo + Rnd(salt, x, 2, hi - lo + 1)
      m == Menu[1 + Rnd(salt, x, 2, 4)]
  IN IF bks \cap Compiling # {} /\ m >= lo /\ m <= hi THEN m ELSE r
\* The recursions of s2fft lose accuracy with the spin (and so with the
\* orientation) and fail outright from 7 on: the spins up to which they keep
\* a relative accuracy of 1e-10, measured on s2fft alone.
Accurate(L) == IF L <= 6 THEN L - 1 ELSE IF L <= 8 THEN 6 ELSE IF L <= 14 THEN 5 ELSE 4
Cand(bks, salt, i, a, lo, hi, nmax) ==
  LET x == i + 97 * a
      lam == Pick(LamsAll, salt, x, 1)
      L == IMin(LCap(lam), DrawL(bks, salt, x, lo, hi))
      top == IF nmax > 8 THEN IMin(L, nmax) ELSE IMin(IMin(L, nmax), 1 + Accurate(L))
      N == IF Rnd(salt, x, 12, 8) = 0 /\ L <= 8 THEN L - (Rnd(salt, x, 13, 3) \div 2) ELSE 1 + Rnd(salt, x, 3, top)
      J0 == LET r == Rnd(salt, x, 11, 6) IN
            IF r = 0 THEN IMax(0, JMax(L, lam) - 1)
            ELSE Rnd(salt, x, 4, IMin(IF r = 1 THEN 100 ELSE 3, IMax(1, JMax(L, lam))))
      real == Rnd(salt, x, 5, 3) = 0
  IN [ L |-> L, N |-> N, J0 |-> J0, p |-> lam[1], q |-> lam[2],
       smp |-> Pick(Smps, salt, x, 6), nside |-> NONE, real |-> real,
       spin |-> IF real THEN 0 ELSE Pick(<< 0, 0, 1, -1, 2, -2, 3, 0, -3, IMin(Accurate(L), L - 1), 0 - IMin(Accurate(L), L - 1) >>, salt, x, 7),
       spin0 |-> 0, mr |-> TRUE, seed |-> Rnd(salt, x, 8, 10000),
       lamint |-> Rnd(salt, x, 9, 2) = 0,
       sig |-> Pick(<< "rand", "rand", "rand", "steep", "mode", "tiny", "huge", "imag", "zonal", "low", "top", "nomean" >>, salt, x, 10) ]

RECURSIVE DrawA(_, _, _, _, _, _, _)
DrawA(bks, salt, i, a, lo, hi, nmax) ==
  LET c == Cand(bks, salt, i, a, lo, hi, nmax)
  IN IF /\ Valid(c.L, c.N, c.J0, << c.p, c.q >>, c.spin)
        /\ \A b \in bks : Supported(b, c)
     THEN c ELSE DrawA(bks, salt, i, a + 1, lo, hi, nmax)
Draw(bks, salt, i, lo, hi, nmax) == DrawA(bks, salt, i, 0, lo, hi, nmax)

(***************************************************************************)
(* A sequence of n drawn configurations that covers triples of features    *)
(* greedily: each is the best of several candidates.                       *)
(***************************************************************************)
Feat(c) ==
  LET lam == << c.p, c.q >> J == JMax(c.L, lam) IN
  << c.L % 2,
     IF c.N = 1 THEN 0 ELSE IF c.N = c.L THEN 1 ELSE 2 + (c.N % 2),
     IF c.J0 = J - 1 THEN 3 ELSE IMin(c.J0, 2),
     lam, c.smp, c.real,
     IF Abs(c.spin) <= 1 THEN c.spin ELSE IF c.spin > 0 THEN 2 ELSE -2,
     IF GeqPow(c.L, lam, J) THEN 0 ELSE IF J > 0 /\ ~ GtPow(c.L - 1, lam, J - 1) THEN 1 ELSE 2,
     c.N > WavL(c.L, lam, c.J0, TRUE), c.sig >>
TripleIdx == { t \in (1..10) \X (1..10) \X (1..10) : t[1] < t[2] /\ t[2] < t[3] }
Triples(c) == LET f == TLCEval(Feat(c)) IN
  { << t[1], t[2], t[3], f[t[1]], f[t[2]], f[t[3]] >> : t \in TripleIdx }
CANDS == 6
Draws(bks, salt, n, lo, hi, nmax) ==
  TLCEval(FoldLeft(LAMBDA acc, i :
    LET cs == TLCEval([k \in 1..CANDS |-> Draw(bks, salt, i * 17 + k, lo, hi, nmax)])
        ts == TLCEval([k \in 1..CANDS |-> Triples(cs[k]) \ acc[1]])
        sz == TLCEval([k \in 1..CANDS |-> Cardinality(ts[k])])
        b == CHOOSE k \in 1..CANDS : \A m \in 1..CANDS : sz[m] <= sz[k]
    IN << acc[1] \cup ts[b], Append(acc[2], cs[b]) >>,
    << {}, << >> >>, [i \in 1..n |-> i])[2])

WithDraws(bks, salt, n, lo, hi, nmax, Op(_, _)) ==
  LET ds == Draws(bks, salt, n, lo, hi, nmax) IN [i \in 1..n |-> Op(i, ds[i])]

\* an explicit configuration
Cfg(L, N, J0, lam, smp, real, spin) ==
  [ L |-> L, N |-> N, J0 |-> J0, p |-> lam[1], q |-> lam[2], smp |-> smp, nside |-> NONE,
    real |-> real, spin |-> spin, spin0 |-> 0, mr |-> TRUE, seed |-> 11 + SEED, lamint |-> FALSE,
    sig |-> "rand" ]

T(c, extra) == extra @@ c
Two == <<2,1>>  Three == <<3,1>>  ThreeHalves == <<3,2>>  FiveHalves == <<5,2>>
Five == <<5,1>>  SevenHalves == <<7,2>>  Four == <<4,1>>

SeqMk(n, Op(_)) == [i \in 1..n |-> Op(i)]
Range1(s) == {s[i] : i \in DOMAIN s}

(****************************** C01 round trip *****************************)
HandConfigs == <<
  Cfg(8, 3, 0, Two, "mw", FALSE, 0),   Cfg(9, 4, 1, Two, "mwss", FALSE, 2),
  Cfg(10, 5, 0, Three, "dh", TRUE, 0), Cfg(7, 2, 1, ThreeHalves, "gl", FALSE, -1),
  Cfg(12, 1, 2, Two, "dh", FALSE, 0),  Cfg(6, 3, 0, FiveHalves, "mw", TRUE, 0),
  Cfg(11, 2, 1, Five, "mwss", TRUE, 0), Cfg(5, 2, 0, SevenHalves, "gl", FALSE, 1),
  Cfg(27, 2, 1, Three, "mw", FALSE, 0), Cfg(6, 2, 1, ThreeHalves, "mw", FALSE, 0), Cfg(17, 4, 2, Four, "mw", FALSE, -2) >>
HandN == Len(HandConfigs)
HandFor(bk) == SelectSeq(HandConfigs, LAMBDA c : Supported(bk, c))

Rt(bk, w, c) == T(c, [kind |-> "rt", bk |-> bk, w |-> w,
                      dtype |-> IF c.seed % 2 = 0 /\ bk # "c" THEN "c" ELSE "r"])
RtDraw(bk, salt, n, lo, hi, nmax, w) ==
  LET ds == Draws({bk}, salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i : Rt(bk, w, ds[i]))
RtHand(bk, w, m) == LET h == HandFor(bk) IN [i \in 1..IMin(m, Len(h)) |-> Rt(bk, w, h[i])]
NoMR(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.mr = FALSE]]

P01 ==
  RtHand("base", 2, 10) \o RtDraw("base", 1, Q(30, 300), 3, 14, 8, 2)
  \o NoMR(RtDraw("base", 2, Q(6, 40), 3, 10, 5, 2))
  \o RtDraw("loop", 3, Q(8, 60), 3, 9, 6, 3) \o NoMR(RtDraw("loop", 4, Q(4, 20), 3, 8, 4, 3))
  \o RtHand("c", 3, 8) \o RtDraw("c", 5, Q(14, 100), 4, 14, 6, 3)
  \o << Rt("base", 12, Cfg(33, 3, 2, Two, "mw", FALSE, 0)),
        Rt("base", 12, Cfg(40, 2, 1, Three, "gl", TRUE, 0)),
        Rt("c", 12, Cfg(48, 3, 0, Two, "mw", FALSE, 2)),
        Rt("c", 12, Cfg(64, 4, 3, Two, "dh", TRUE, 0)),
        Rt("c", 12, [Cfg(128, 3, 2, Two, "mw", FALSE, 0) EXCEPT !.sig = "steep"]), Rt("c", 12, Cfg(256, 2, 3, Three, "mw", FALSE, -2)),
        Rt("c", 12, Cfg(200, 2, 1, FiveHalves, "gl", TRUE, 0)) >>
  \o RtHand("pre", 5, 6) \o RtDraw("pre", 6, Q(9, 40), 4, 10, 5, 5)
  \o RtHand("torch", 5, 6) \o RtDraw("torch", 7, Q(11, 60), 4, 10, 5, 5)
  \o RtDraw("jax", 8, Q(8, 60), 4, 9, 4, 20)
  \o << Rt("jax", 30, Cfg(8, 3, 0, Two, "mw", FALSE, 0)),
        Rt("jax", 30, Cfg(10, 2, 1, Three, "mwss", TRUE, 0)),
        Rt("jax", 30, Cfg(33, 2, 1, Two, "mw", FALSE, 0)), Rt("torch", 30, Cfg(34, 3, 1, Three, "mw", TRUE, 0)),
        Rt("pre", 14, Cfg(36, 2, 0, Two, "gl", FALSE, -1)), Rt("c", 12, Cfg(128, 3, 1, Two, "mw", FALSE, 0)),
        Rt("c", 12, Cfg(100, 5, 2, Three, "mwss", FALSE, -2)) >>

(******************** C02 / C03 agreement of the backends ******************)
Agree(kind, ref, bks, w, c) == T(c, [kind |-> kind, ref |-> ref, bks |-> bks, w |-> w])
AgreeDraw(kind, ref, bks, salt, n, lo, hi, nmax, w) ==
  LET ds == Draws(Range1(bks), salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i : Agree(kind, ref, bks, w, ds[i]))
Spin0(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.spin0 = (i % 5) - 2, !.spin = 0, !.real = FALSE]]
PAgree(kind, salt) ==
  AgreeDraw(kind, "base", << "loop", "c" >>, salt + 1, Q(20, 200), 3, 12, 6, 3)
  \o NoMR(AgreeDraw(kind, "base", << "loop" >>, salt + 2, Q(6, 30), 3, 9, 5, 3))
  \o Spin0(AgreeDraw(kind, "base", << "loop" >>, salt + 3, Q(6, 30), 4, 9, 4, 3))
  \o [i \in 1..6 |-> Agree(kind, "base", << "c", "pre", "torch" >>, 6,
        SelectSeq(HandConfigs, LAMBDA c : \A b \in {"c", "pre"} : Supported(b, c))[i])]
  \o AgreeDraw(kind, "base", << "pre", "torch" >>, salt + 4, Q(18, 120), 4, 10, 6, 6)
  \o AgreeDraw(kind, "base", << "jax", "c" >>, salt + 5, Q(12, 80), 4, 9, 4, 20)
  \o << Agree(kind, "c", << "jax" >>, 100, Cfg(80, 2, 2, Two, "mw", FALSE, 0)),
        Agree(kind, "c", << "pre", "torch" >>, 90, Cfg(68, 2, 2, Three, "mw", FALSE, 0)),
        Agree(kind, "base", << "c" >>, 12, Cfg(40, 3, 1, Two, "mw", FALSE, 0)),
        Agree(kind, "base", << "c" >>, 12, Cfg(27, 5, 0, Three, "gl", FALSE, 2)),
        Agree(kind, "base", << "pre", "torch" >>, 12, Cfg(20, 4, 1, Two, "mw", FALSE, 0)),
        Agree(kind, "base", << "pre", "torch", "c" >>, 35, Cfg(33, 2, 2, Two, "mwss", FALSE, 1)),
        Agree(kind, "base", << "jax", "c" >>, 30, Cfg(28, 2, 0, Three, "gl", FALSE, 0)),
        Agree(kind, "base", << "c" >>, 20, Cfg(65, 2, 1, Four, "dh", FALSE, -1)),
        Agree(kind, "base", << "jax" >>, 40, Cfg(8, 4, 0, Two, "mw", FALSE, 1)),
        Agree(kind, "base", << "jax" >>, 40, Cfg(16, 2, 2, Two, "mw", TRUE, 0)) >>
\* pinned inputs of the known findings (see known_findings.json)
Pinned02 == <<
  Agree("ana", "base", << "c" >>, 3, Cfg(10, 7, 1, Two, "mw", FALSE, 0)),
  Agree("ana", "base", << "c" >>, 3, Cfg(6, 5, 0, Two, "mwss", FALSE, 0)) >>
Pinned03 == <<
  Agree("syn", "base", << "pre" >>, 3, Cfg(8, 1, 0, Two, "mw", FALSE, 0)),
  Agree("syn", "base", << "torch" >>, 3, Cfg(8, 1, 1, Two, "mwss", FALSE, 0)) >>
P02 == PAgree("ana", 20) \o Pinned02
P03 == PAgree("syn", 40) \o Pinned03

(************************** C04 - C07 filter banks *************************)
\* band-limits at, just below and just above powers of lam, and large ones
BankLs(lam) ==
  LET p == [j \in 1..6 |-> IF j <= 5 /\ CeilPow(lam, j) <= 90 THEN CeilPow(lam, j) ELSE 2]
      m == {p[j] + d : j \in 1..6, d \in {-1, 0, 1}}
  IN {L \in m : L >= 2 /\ L <= 64 /\ JMax(L, lam) >= 1}
Lams8 == << Two, Three, ThreeHalves, FiveHalves, Five, SevenHalves, Four, <<21,10>> >>
SeqFromSet(S) == SetToSeq(S)
Impls == << "vec", "loop", "jax", "vectorch", "looptorch" >>
BankTask(kind, impl, L, N, J0, lam, spin, spin0, w) ==
  T(Cfg(L, N, J0, lam, "mw", FALSE, spin),
    [kind |-> kind, impl |-> impl, spin0 |-> spin0, w |-> w, phase |-> IF N % 2 = 1 THEN "re" ELSE "im"])
BankGrid(kind, salt) ==
  FlattenSeq([x \in 1..Len(Lams8) |->
    LET lam == Lams8[x] ls == SeqFromSet(BankLs(lam)) IN
    FlattenSeq([k \in 1..Len(ls) |->
      LET L == ls[k] J == JMax(L, lam) IN
      [r \in 1..Q(IF kind = "bank" /\ salt = 60 THEN 3 ELSE 1, 4) |->
         BankTask(kind, Pick(<< "vec", "vec", "loop" >>, salt, x * 100 + k, r), L,
                  1 + Rnd(salt, x * 100 + k, 10 + r, IMin(L, 9)),
                  Rnd(salt, x * 100 + k, 20 + r, J), lam,
                  LET sp == Pick(<< 0, 0, 1, -2, 2, -1, -3 >>, salt, x * 100 + k, 30 + r) IN IF Abs(sp) < L THEN sp ELSE 0,
                  0, 2)]])])
BankJax(kind, salt, n) == WithDraws({"base"}, salt, n, 3, 14, 9, LAMBDA i, d :
  LET c == d IN
  BankTask(kind, Pick(<< "jax", "vectorch", "looptorch" >>, salt, i, 50), c.L, c.N, c.J0,
           << c.p, c.q >>, c.spin, 0, 4))
P04 == BankGrid("bank", 60) \o BankJax("bank", 61, Q(30, 100))
       \o << BankTask("bank", "vec", 128, 3, 0, Two, 0, 0, 11), BankTask("bank", "vec", 256, 1, 2, Two, 2, 0, 11),
             BankTask("bank", "loop", 100, 2, 1, Three, 0, 0, 11), BankTask("bank", "vec", 243, 2, 1, Three, 0, 0, 11),
             BankTask("bank", "vec", 200, 2, 0, SevenHalves, -1, 0, 11), BankTask("bank", "vec", 125, 5, 1, Five, 0, 0, 11) >>

Banks(c, ref, impls, spin0, w) ==
  [c EXCEPT !.spin0 = spin0] @@ [kind |-> "banks", ref |-> ref, impls |-> impls, w |-> w]
P05 == WithDraws({"base"}, 65, Q(60, 300), 2, 20, 12, LAMBDA i, d :
         Banks([d EXCEPT !.sig = "rand"], "loop",
               << "vec", "vectorch", "looptorch" >>, 0, 2))
       \o WithDraws({"base"}, 66, Q(32, 120), 2, 12, 8, LAMBDA i, d :
         LET c == d IN
         Banks([c EXCEPT !.real = FALSE], "loop", << "vec", "jax" >>,
               IF i % 2 = 0 THEN 0 ELSE IMin(c.L - 1, 3) - (i % (2 * IMin(c.L - 1, 3) + 1)), 5))
       \o WithDraws({"base"}, 67, Q(28, 100), 4, 16, 6, LAMBDA i, d :
         LET c == d IN
         Banks([c EXCEPT !.real = FALSE], "loop", << "vec", "looptorch", "vectorch" >>,
               IMin(c.L - 1, 3) - (i % (2 * IMin(c.L - 1, 3) + 1)), 2))
       \o << Banks(Cfg(40, 20, 1, Two, "mw", FALSE, 0), "loop", << "vec", "jax" >>, 0, 11),
             Banks(Cfg(27, 27, 0, Three, "mw", FALSE, 3), "loop", << "vec", "jax" >>, 0, 11) >>

P06B == SelectSeq(BankGrid("bank", 70), LAMBDA t : t.L <= 64) \o BankJax("bank", 71, Q(24, 60))
       \o << BankTask("bank", "vec", 64, 2, 2, Two, 0, 0, 3), BankTask("bank", "vec", 60, 3, 0, FiveHalves, 0, 0, 3),
             BankTask("bank", "vec", 128, 2, 0, Two, 0, 0, 11), BankTask("bank", "vec", 100, 3, 1, Three, -2, 0, 11),
             BankTask("bank", "loop", 80, 2, 1, FiveHalves, 0, 0, 11), BankTask("bank", "jax", 72, 1, 1, Two, 0, 0, 11),
             BankTask("bank", "vec", 130, 1, 1, Five, 1, 0, 11), BankTask("bank", "vec", 257, 1, 3, Two, 0, 0, 11) >>

KLamTask(impl, iters, L, J0, lam, w) ==
  BankTask("klam", impl, L, 1, J0, lam, 0, 0, w) @@ [iters |-> iters]
P06K == WithDraws({"base"}, 72, Q(36, 120), 2, 20, 3, LAMBDA i, d :
          KLamTask(<< "vec", "loop", "jax" >>[1 + (i % 3)], << 0, 0, 1000, 0, 450 >>[1 + (i % 5)],
                   d.L, d.J0, << d.p, d.q >>, IF i % 3 = 2 THEN 5 ELSE 2))
        \o << KLamTask("loop", 0, 97, 1, Three, 5), KLamTask("vec", 2000, 40, 2, Two, 5), KLamTask("jax", 0, 48, 0, FiveHalves, 11) >>
DirTask(impl, L, N, w) == BankTask("dir", impl, L, N, 0, Two, 0, 0, w)
P07 == FlattenSeq([L \in 1..Q(13, 20) |-> [N \in 1..(L + 1) |-> DirTask("vec", L + 1, N, 1)]])
       \o FlattenSeq([x \in 1..5 |-> LET L == << 3, 6, 9, 12, 16 >>[x] IN
            [k \in 1..3 |-> DirTask("jax", L, << L, IMax(1, L - 1), IMax(1, L \div 2) >>[k], 4)]])
       \o [N \in 1..Q(6, 12) |-> DirTask("loop", 10, N, 2)]
       \o [k \in 1..Q(24, 60) |-> LET L == 3 + Rnd(75, k, 1, 24) N == 1 + Rnd(75, k, 2, L) IN
            [DirTask(Pick(<< "np", "np", "np", "jax" >>, 75, k, 3), L, N, 2) EXCEPT !.kind = "tdir"]]
       \o << [DirTask("np", 60, 30, 3) EXCEPT !.kind = "tdir"], [DirTask("np", 100, 100, 5) EXCEPT !.kind = "tdir"],
             [DirTask("jax", 40, 21, 11) EXCEPT !.kind = "tdir"] >>
       \o << [kind |-> "binom", impl |-> "np", w |-> 1], [kind |-> "binom", impl |-> "jax", w |-> 2] >>
       \o << DirTask("vec", 40, 25, 3), DirTask("vec", 48, 40, 3), DirTask("vec", 60, 60, 5),
             DirTask("loop", 24, 24, 5), DirTask("jax", 24, 18, 11), DirTask("vec", 64, 7, 3), DirTask("vec", 64, 8, 3) >>

(****************************** C08 geometry *******************************)
GeomTask(L, N, J0, lam, li) ==
  [kind |-> "geom", L |-> L, N |-> N, J0 |-> J0, p |-> lam[1], q |-> lam[2], lamint |-> li, w |-> 1]
GeomLams == << Two, Three, ThreeHalves, FiveHalves, Five, SevenHalves, Four, <<6,1>>, <<7,1>>, <<9,1>>, <<9,2>>, <<10,1>>, <<21,10>> >>
GeomCap(lam) == IF lam = <<21,10>> THEN 30 ELSE IF lam = ThreeHalves THEN 1100 ELSE Q(1024, 4096)
Big == << 81, 100, 125, 127, 128, 129, 216, 243, 244, 255, 256, 257, 343, 500, 512, 625, 728, 729, 730, 1000, 1023, 1024, 2048, 2187, 4096 >>
P08 == FlattenSeq([x \in 1..Len(GeomLams) |->
         LET lam == GeomLams[x]
             ls == SelectSeq([l \in 1..Q(70, 130) |-> l + 1] \o Big, LAMBDA l : l <= GeomCap(lam) /\ JMax(l, lam) >= 1)
         IN [k \in 1..Len(ls) |->
              GeomTask(ls[k], 1 + Rnd(80, x * 1000 + k, 1, IMin(ls[k], 12)),
                       Rnd(80, x * 1000 + k, 2, JMax(ls[k], lam)), lam, Rnd(80, x * 1000 + k, 3, 2) = 0)]])

(******************************* C09 shapes ********************************)
ShpTask(c, mr, jm) == [c EXCEPT !.mr = mr] @@ [kind |-> "shp", jmax |-> jm, w |-> 2]
Hpx(c, ns) == [c EXCEPT !.smp = "healpix", !.nside = ns]
P09 == SeqMk(Q(12, 40), LAMBDA i :
         LET lam == Pick(LamsAll, 84, i, 1)
             L == IMin(LCap(lam), 30 + Rnd(84, i, 2, 120))
             J == JMax(L, lam) IN
         ShpTask(Cfg(L, 1 + Rnd(84, i, 3, IMin(L, 5)), Rnd(84, i, 4, J), lam, Smps[1 + (i % 4)], FALSE, 0), i % 3 # 0,
                 IF i % 2 = 0 THEN NONE ELSE J))
       \o WithDraws({"base"}, 85, Q(50, 400), 2, 24, 10, LAMBDA i, d :
         LET c == d J == JMax(c.L, << c.p, c.q >>) IN
         ShpTask(c, i % 3 # 0, IF i % 2 = 0 THEN NONE ELSE c.J0 + Rnd(85, i, 77, J - c.J0 + 1)))
       \o WithDraws({"base"}, 86, Q(10, 40), 4, 16, 5, LAMBDA i, d : ShpTask(Hpx(d, 1 + (i % 4)), i % 2 = 0, NONE))
       \o WithDraws({"base"}, 87, Q(16, 100), 3, 10, 6, LAMBDA i, d : T(d, [kind |-> "out", bk |-> "base", w |-> 2]))
       \o WithDraws({"c"}, 88, Q(12, 60), 3, 10, 5, LAMBDA i, d : T(d, [kind |-> "out", bk |-> "c", w |-> 3]))
       \o WithDraws({"pre"}, 89, Q(8, 40), 3, 8, 4, LAMBDA i, d : T(d, [kind |-> "out", bk |-> IF i % 2 = 0 THEN "pre" ELSE "torch", w |-> 5]))
       \o [i \in 1..4 |-> T([Cfg(6, 2, 0, Two, Smps[i], i % 2 = 0, 0) EXCEPT !.sig = "rand"], [kind |-> "out", bk |-> "torch", w |-> 5])]
       \o WithDraws({"jax"}, 90, Q(5, 30), 3, 7, 3, LAMBDA i, d : T([d EXCEPT !.J0 = 0], [kind |-> "out", bk |-> "jax", w |-> 25]))

(******************** C10 / C11 exact harmonic action ***********************)
Gain(kind, bk, w, c) == T([c EXCEPT !.sig = "rand"], [kind |-> kind, bk |-> bk, w |-> w, shifts |-> 2])
GainDraw(kind, bk, salt, n, lo, hi, nmax, w) ==
  LET ds == Draws({bk}, salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i : Gain(kind, bk, w, ds[i]))
NotReal(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.real = FALSE]]
ImagW(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.real = FALSE, !.sig = "imag"]]
P10 == GainDraw("gain", "base", 100, Q(16, 150), 3, 12, 6, 3)
       \o NoMR(GainDraw("gain", "base", 101, Q(4, 20), 3, 8, 4, 3))
       \o GainDraw("gain", "loop", 102, Q(6, 30), 3, 8, 5, 3)
       \o GainDraw("gain", "c", 103, Q(10, 80), 4, 12, 5, 4)
       \o GainDraw("gain", "pre", 104, Q(8, 40), 4, 9, 4, 5)
       \o GainDraw("gain", "torch", 105, Q(10, 40), 4, 9, 4, 5)
       \o GainDraw("gain", "jax", 106, Q(8, 40), 4, 8, 4, 25)
       \o << Gain("gain", "c", 11, Cfg(24, 4, 1, Two, "mw", FALSE, 0)),
             Gain("gain", "base", 11, Cfg(20, 8, 0, ThreeHalves, "gl", FALSE, 0)),
             Gain("gain", "c", 20, Cfg(66, 2, 1, Two, "mw", FALSE, 0)), Gain("gain", "c", 15, Cfg(40, 3, 0, FiveHalves, "gl", TRUE, 0)),
             Gain("gain", "c", 40, Cfg(128, 3, 2, Two, "mw", FALSE, 0)), Gain("gain", "c", 20, Cfg(100, 2, 1, Three, "mwss", FALSE, 0)),
             Gain("gain", "torch", 20, Cfg(20, 3, 0, Three, "mw", FALSE, 0)) >>
P11 == NotReal(GainDraw("syngain", "base", 110, Q(14, 120), 3, 10, 5, 4)
       \o GainDraw("syngain", "loop", 112, Q(5, 30), 3, 7, 4, 4)
       \o GainDraw("syngain", "c", 113, Q(7, 60), 4, 9, 4, 6)
       \o GainDraw("syngain", "pre", 114, Q(8, 40), 4, 8, 4, 6)
       \o GainDraw("syngain", "torch", 115, Q(9, 40), 4, 8, 4, 6)
       \o GainDraw("syngain", "jax", 116, Q(7, 40), 4, 7, 3, 25)
       \o NoMR(GainDraw("syngain", "base", 117, Q(4, 20), 3, 7, 4, 4)))
       \o ImagW(GainDraw("syngain", "base", 118, Q(5, 30), 4, 9, 5, 4) \o GainDraw("syngain", "loop", 119, Q(2, 10), 4, 6, 4, 4)
               \o GainDraw("syngain", "c", 107, Q(3, 20), 4, 9, 4, 5) \o GainDraw("syngain", "pre", 108, Q(2, 10), 4, 7, 4, 6)
               \o GainDraw("syngain", "torch", 109, Q(3, 20), 4, 7, 4, 5) \o GainDraw("syngain", "jax", 111, Q(1, 8), 4, 6, 3, 25))
       \o << Gain("syngain", "c", 15, Cfg(24, 3, 1, Two, "mw", FALSE, 0)), Gain("syngain", "c", 15, Cfg(18, 2, 0, Three, "gl", FALSE, -1)),
             Gain("syngain", "base", 15, Cfg(17, 4, 2, Two, "mw", FALSE, 2)), Gain("syngain", "c", 40, Cfg(100, 2, 4, Two, "mw", FALSE, 0)) >>

(****************************** C12 energy **********************************)
En(bk, w, c) == T(c, [kind |-> "energy", bk |-> bk, w |-> w])
EnDraw(bk, salt, n, lo, hi, nmax, w) == LET ds == Draws({bk}, salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i : En(bk, w, ds[i]))
P12 == EnDraw("base", 120, Q(20, 150), 3, 16, 8, 3) \o EnDraw("loop", 121, Q(5, 30), 3, 8, 4, 3)
       \o EnDraw("c", 122, Q(14, 90), 4, 16, 6, 3) \o EnDraw("pre", 123, Q(8, 40), 4, 9, 4, 5)
       \o EnDraw("torch", 124, Q(9, 40), 4, 9, 4, 5) \o EnDraw("jax", 125, Q(6, 40), 4, 8, 3, 25)
       \o << En("c", 60, Cfg(130, 2, 2, Two, "mw", FALSE, 0)), En("c", 11, Cfg(32, 3, 0, Two, "mw", FALSE, 0)), En("base", 11, Cfg(25, 2, 0, Five, "dh", FALSE, 1)),
             En("c", 16, Cfg(65, 2, 2, Two, "mw", FALSE, -1)), En("torch", 16, Cfg(20, 2, 1, Two, "mwss", TRUE, 0)) >>

(****************************** C13 reality *********************************)
ReDraw(bk, salt, n, lo, hi, nmax, w) == LET ds == Draws({bk}, salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i :
  T([ds[i] EXCEPT !.real = TRUE, !.spin = 0, !.sig = "rand"],
    [kind |-> "real", bk |-> bk, w |-> w]))
P13 == ReDraw("base", 130, Q(16, 120), 3, 12, 7, 3) \o NoMR(ReDraw("base", 131, Q(4, 20), 3, 8, 4, 3))
       \o ReDraw("loop", 132, Q(6, 30), 3, 8, 4, 4) \o ReDraw("c", 133, Q(12, 90), 4, 12, 6, 4)
       \o ReDraw("pre", 134, Q(7, 30), 4, 8, 4, 8) \o ReDraw("torch", 135, Q(8, 40), 4, 8, 4, 8)
       \o ReDraw("jax", 136, Q(6, 40), 4, 7, 3, 40)
       \o << T(Cfg(33, 3, 1, Two, "mw", TRUE, 0), [kind |-> "real", bk |-> "c", w |-> 12]),
             T(Cfg(129, 3, 2, Two, "mw", TRUE, 0), [kind |-> "real", bk |-> "c", w |-> 20]),
             T(Cfg(40, 2, 0, Three, "gl", TRUE, 0), [kind |-> "real", bk |-> "c", w |-> 12]),
             T(Cfg(20, 4, 2, Two, "mwss", TRUE, 0), [kind |-> "real", bk |-> "base", w |-> 12]),
             T(Cfg(18, 2, 1, Two, "mw", TRUE, 0), [kind |-> "real", bk |-> "torch", w |-> 16]) >>

(************************** C14 flm_to_analysis ******************************)
FlmDraw(ref, bks, salt, n, lo, hi, nmax, w) == LET ds == Draws(Range1(bks), salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i :
  LET c == ds[i] J == JMax(c.L, << c.p, c.q >>) IN
  T(c, [kind |-> "flm", ref |-> ref, bks |-> bks, w |-> w, nosph |-> i % 2 = 0,
        jmax |-> IF i % 3 = 0 THEN NONE ELSE c.J0 + Rnd(salt, i, 44, J - c.J0 + 1)]))
P14 == FlmDraw("base", << "c" >>, 140, Q(20, 120), 4, 14, 6, 3)
       \o FlmDraw("base", << "c", "pre", "torch" >>, 141, Q(18, 90), 4, 9, 5, 6)
       \o FlmDraw("base", << "jax" >>, 142, Q(8, 60), 4, 9, 4, 25)
       \o SeqMk(Q(5, 12), LAMBDA i : LET L == << 33, 20, 28, 17, 40 >>[1 + (i % 5)] lam == << Two, Three >>[1 + (i % 2)] J == JMax(L, lam) IN
            T(Cfg(L, 2 + (i % 2), i % 3, lam, Smps[1 + (i % 4)], i % 2 = 0, 0),
              [kind |-> "flm", ref |-> "base", bks |-> IF L < 30 THEN << "c", "pre", "torch" >> ELSE << "c" >>, w |-> 15,
               nosph |-> i % 2 = 1, jmax |-> IF i % 2 = 0 THEN J - 1 ELSE NONE]))
       \o << T(Cfg(128, 2, 1, Two, "mw", FALSE, 0), [kind |-> "flm", ref |-> "c", bks |-> << "c" >>, w |-> 12, nosph |-> TRUE, jmax |-> 5]) >>
       \* the lowest scale alone
       \o [i \in 1..3 |-> T(Cfg(5 + i, 1 + (i % 3), 0, << Two, Three, ThreeHalves >>[i], Smps[i], i = 2, 0),
             [kind |-> "flm", ref |-> "base", bks |-> << << "c", "pre", "torch" >>, << "jax" >>, << "pre", "torch" >> >>[i],
              w |-> IF i = 2 THEN 25 ELSE 6, nosph |-> i # 1, jmax |-> 0])]

(************************ C15 precomputes and defaults ***********************)
PreDraw(bk, salt, n, lo, hi, nmax, w) == LET ds == Draws({bk}, salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i :
  T([ds[i] EXCEPT !.sig = "rand"], [kind |-> "pre", bk |-> bk, w |-> w]))
P15 == PreDraw("c", 150, Q(8, 60), 4, 10, 5, 6) \o PreDraw("pre", 151, Q(9, 40), 4, 9, 4, 12)
       \o PreDraw("torch", 152, Q(10, 40), 4, 9, 4, 8) \o PreDraw("jax", 153, Q(5, 30), 4, 7, 3, 60)
       \o << T(Cfg(40, 3, 1, Two, "mw", FALSE, 0), [kind |-> "pre", bk |-> "c", w |-> 12]),
             T(Cfg(18, 3, 0, Three, "gl", FALSE, 0), [kind |-> "pre", bk |-> "torch", w |-> 16]) >>
       \o SeqMk(Q(2, 8), LAMBDA i : T(Cfg(<< 5, 6, 9, 7 >>[1 + (i % 4)], 1, 0, Two, "mw", FALSE, 0), [kind |-> "defs", w |-> 25]))
       \o WithDraws({"pre"}, 154, Q(12, 40), 4, 9, 5, LAMBDA i, d : T(d, [kind |-> "kern", w |-> 6]))

(****************************** C17 gradients ********************************)
GrDraw(bk, what, salt, n, lo, hi, nmax, w) == LET ds == Draws({bk}, salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i :
  T([ds[i] EXCEPT !.sig = "rand"],
    [kind |-> "grad", bk |-> bk, what |-> what, w |-> w]))
\* s2fft's adjoint rules for ducc0 are exact for complex signals off "dh" only;
\* Pinned17 keeps the failing combinations visible (known_findings.json)
CGr(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.real = FALSE, !.smp = IF @ = "dh" THEN "mw" ELSE @]]
Pinned17 == << T(Cfg(6, 1, 1, Two, "dh", FALSE, 0), [kind |-> "grad", bk |-> "c", what |-> "ana", w |-> 4]),
               T(Cfg(5, 4, 0, Three, "mw", TRUE, 0), [kind |-> "grad", bk |-> "c", what |-> "syn", w |-> 4]) >>
P17 == Pinned17 \o GrDraw("pre", "ana", 170, Q(5, 30), 4, 8, 4, 12) \o GrDraw("pre", "syn", 171, Q(5, 30), 4, 8, 4, 12)
       \o GrDraw("pre", "flm", 172, Q(2, 10), 4, 8, 4, 12)
       \o GrDraw("torch", "ana", 173, Q(8, 60), 4, 9, 4, 5) \o GrDraw("torch", "syn", 174, Q(8, 60), 4, 9, 4, 5)
       \o GrDraw("torch", "flm", 175, Q(4, 20), 4, 9, 4, 5)
       \o CGr(GrDraw("c", "ana", 176, Q(6, 40), 4, 9, 4, 8)) \o CGr(GrDraw("c", "syn", 177, Q(6, 40), 4, 9, 4, 8))
       \o CGr(GrDraw("c", "flm", 178, Q(3, 20), 4, 9, 4, 8))
       \o << T(Cfg(16, 3, 1, Two, "mw", FALSE, 0), [kind |-> "grad", bk |-> "torch", what |-> "ana", w |-> 10]),
             T(Cfg(18, 2, 0, Three, "gl", TRUE, 0), [kind |-> "grad", bk |-> "torch", what |-> "syn", w |-> 10]),
             T(Cfg(24, 3, 1, Two, "mw", FALSE, 0), [kind |-> "grad", bk |-> "c", what |-> "ana", w |-> 10]),
             T(Cfg(24, 2, 0, Three, "gl", FALSE, -2), [kind |-> "grad", bk |-> "c", what |-> "syn", w |-> 10]),
             T(Cfg(16, 2, 2, Two, "mw", FALSE, 0), [kind |-> "grad", bk |-> "pre", what |-> "syn", w |-> 14]) >>
       \o GrDraw("jax", "ana", 179, Q(3, 20), 4, 6, 3, 60) \o GrDraw("jax", "syn", 180, Q(3, 20), 4, 6, 3, 60)

(***************************** C18 rejection *********************************)
Inv(op, L, N, J0, lam, smp, arg, w) ==
  T(Cfg(L, N, J0, lam, smp, FALSE, 0), [kind |-> "inv", op |-> op, arg |-> arg, w |-> w])
J0Cases(L, lam) == LET J == JMax(L, lam) IN << -2, -1, 0, J - 1, J, J + 1, J + 3 >>
InvCfgs == << << 8, Two >>, << 9, Two >>, << 27, Three >>, << 9, Three >>, << 7, ThreeHalves >>, << 25, Five >>, << 6, FiveHalves >>, << 4, Four >>, << 5, Four >> >>
TrOps == << "base_ana", "base_syn", "loop_ana", "loop_syn", "c_ana", "c_syn", "c_flm", "jax_ana", "jax_syn", "jax_flm",
            "pre_ana", "pre_syn", "pre_flm", "torch_ana", "torch_syn", "torch_flm" >>
P18 == FlattenSeq([x \in 1..Len(InvCfgs) |->
         LET L == InvCfgs[x][1] lam == InvCfgs[x][2] js == J0Cases(L, lam) IN
         FlattenSeq([k \in 1..Len(js) |->
            [o \in 1..6 |-> Inv(<< "axi", "axivec", "axijax", "dir", "dirvec", "dirjax" >>[o], L, 2, js[k], lam, "mw", 0, 2)]])])
       \o FlattenSeq([x \in 1..3 |->
         LET L == InvCfgs[x][1] lam == InvCfgs[x][2] js == J0Cases(L, lam) IN
         FlattenSeq([k \in 1..Len(js) |->
            [o \in 1..2 |-> Inv(<< "base", "loop" >>[o], IMin(L, 9), 2,
                                 IF js[k] = JMax(L, lam) - 1 /\ L > 9 THEN 0 ELSE js[k], lam, "mw", 0, 3)]])])
       \o [o \in 1..6 |-> Inv(<< "pre_noker", "pre_noker_syn", "pre_noker_flm", "torch_noker", "torch_noker_syn", "torch_noker_flm" >>[o], 6, 2, 0, Two, "mw", 0, 3)]
       \o [o \in 1..6 |-> Inv(<< "c_hpx", "c_HPX", "c_hpx_syn", "c_HPX_syn", "c_hpx_flm", "c_HPX_flm" >>[o], 6, 2, 0, Two, "mw", 0, 3)]
       \o FlattenSeq([o \in 1..Len(TrOps) |-> [k \in 1..3 |->
            LET L == 5 + ((o + k) % 4) lam == << Two, Three, FiveHalves >>[1 + (o % 3)] J == JMax(L, lam) IN
            Inv("j0_" \o TrOps[o], L, 1 + (o % 2), << -1, J, J + 1 >>[k], lam, "mw", 0, 6)]])
       \o [o \in 1..(Len(TrOps) + 1) |-> Inv("smp_" \o (IF o > Len(TrOps) THEN "shape_ana" ELSE TrOps[o]), 6, 2, 0, Two, "mw",
              << "mwsss", "", "hpx" >>[1 + (o % 3)], 6)]
       \o FlattenSeq([s \in 1..4 |-> FlattenSeq([a1 \in 1..Q(4, 9) |-> LET a == a1 - 1 IN
            [o \in 1..10 |-> [Inv(<< "syn_base_missing", "syn_base_extra", "syn_base_scal", "syn_base_wav", "syn_loop_missing",
                                "syn_loop_extra", "syn_loop_scal", "syn_loop_wav", "syn_base_order", "syn_loop_order" >>[o],
                               8, 3, a % 2, Two, Smps[s], a, 2) EXCEPT !.mr = (o \in {9, 10}) \/ a # 2]]])])

(***************************** C19 scattering ********************************)
P19 == WithDraws({"base"}, 190, Q(70, 400), 3, 12, 6, LAMBDA i, d :
  T([d EXCEPT !.mr = i % 4 # 0], [kind |-> "scat", w |-> 3]))
  \o << T(Cfg(33, 3, 1, Two, "mw", FALSE, 0), [kind |-> "scat", w |-> 11]), T(Cfg(28, 2, 0, Three, "mwss", TRUE, 0), [kind |-> "scat", w |-> 11]),
        T(Cfg(24, 4, 0, FiveHalves, "gl", FALSE, 2), [kind |-> "scat", w |-> 11]) >>

(*************************** C20 multiresolution *****************************)
P20 == WithDraws({"base"}, 200, Q(40, 200), 3, 12, 6, LAMBDA i, d :
  T([d EXCEPT !.sig = "rand"], [kind |-> "mr", bk |-> IF i % 3 = 0 THEN "loop" ELSE "base", w |-> 3]))
  \o << T(Cfg(24, 3, 0, Two, "mw", FALSE, 0), [kind |-> "mr", bk |-> "base", w |-> 15]), T(Cfg(20, 2, 1, FiveHalves, "dh", TRUE, 0), [kind |-> "mr", bk |-> "base", w |-> 15]),
        T(Cfg(28, 2, 2, Three, "gl", FALSE, -1), [kind |-> "mr", bk |-> "base", w |-> 15]) >>

(******************************* C21 HEALPix *********************************)
HpxCfg(L, N, J0, lam, ns, real, spin) == Hpx(Cfg(L, N, J0, lam, "mw", real, spin), ns)
HpxTask(c, bks, fbks, w) == T(c, [kind |-> "hpx", bks |-> bks, fbks |-> fbks, w |-> w])
HB == << "loop", "pre", "torch" >>
HF == << "pre", "torch" >>
\* every stored band-limit must be >= 2 nside; s2fft itself disagrees between
\* its implementations for spin signals and for nside = 1 (see DESIGN.md)
P21 == << HpxTask(HpxCfg(8, 3, 2, Two, 2, FALSE, 0), HB, HF, 12),
          HpxTask(HpxCfg(8, 2, 2, Two, 2, TRUE, 0), HB, HF, 12),
          HpxTask(HpxCfg(6, 2, 2, Two, 2, FALSE, 0), HB, HF, 12),
          HpxTask(HpxCfg(9, 3, 2, Two, 2, FALSE, 0), HB, HF, 12),
          HpxTask(HpxCfg(12, 4, 2, Three, 4, FALSE, 0), HF, HF, 14),
          HpxTask(HpxCfg(8, 3, 1, Four, 2, TRUE, 0), HB, HF, 12),
          HpxTask(HpxCfg(8, 1, 2, Two, 2, FALSE, 0), HB, HF, 12),
          HpxTask(HpxCfg(8, 1, 2, Two, 2, FALSE, 0), << "jax" >>, << >>, 20),
          HpxTask(HpxCfg(7, 1, 1, Four, 2, FALSE, 0), << "jax" >>, << >>, 20) >>
       \o SeqMk(Q(9, 60), LAMBDA i :
            LET lam == Pick(<< Two, Three, Four, FiveHalves >>, 210, i, 2)
                J0 == IF CeilPow(lam, 1) >= 4 THEN 1 ELSE 2
                L == CeilPow(lam, J0) + 1 + Rnd(210, i, 3, 4)
                real == Rnd(210, i, 4, 2) = 0
            IN HpxTask(HpxCfg(L, 1 + Rnd(210, i, 5, 3), J0, lam, 2, real, 0), HB, HF, 12))

(******************************* C22 linearity *******************************)
LiDraw(bk, salt, n, lo, hi, nmax, w) == LET ds == Draws({bk}, salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i :
  T([ds[i] EXCEPT !.sig = "rand"], [kind |-> "lin", bk |-> bk, w |-> w]))
P22 == LiDraw("base", 220, Q(16, 100), 3, 10, 6, 4) \o LiDraw("loop", 221, Q(5, 30), 3, 7, 4, 5)
       \o LiDraw("c", 222, Q(8, 60), 4, 10, 5, 5) \o LiDraw("pre", 223, Q(7, 30), 4, 8, 4, 8)
       \o LiDraw("torch", 224, Q(8, 40), 4, 8, 4, 6) \o LiDraw("jax", 225, Q(5, 30), 4, 7, 3, 30)
       \o << T(Cfg(128, 3, 2, Two, "mw", FALSE, 0), [kind |-> "lin", bk |-> "c", w |-> 40]),
             T(Cfg(32, 3, 1, Two, "mw", FALSE, 0), [kind |-> "lin", bk |-> "c", w |-> 15]), T(Cfg(18, 2, 0, Two, "gl", FALSE, 1), [kind |-> "lin", bk |-> "base", w |-> 15]),
             T(Cfg(16, 2, 0, Three, "mw", FALSE, 0), [kind |-> "lin", bk |-> "torch", w |-> 15]) >>

(******************************** C23 nesting ********************************)
\* every J0 and both band-limits are used, so N is lowered until all are supported
RECURSIVE NestN(_, _, _, _)
NestN(bk, c, dL, n) ==
  IF n = 1 \/ \A l \in {c.L, c.L + dL} : Supported(bk, [c EXCEPT !.L = l, !.N = n, !.J0 = 0]) THEN n
  ELSE NestN(bk, c, dL, n - 1)
NeDraw(bk, salt, n, lo, hi, nmax, w) == LET ds == Draws({bk}, salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i :
  LET c == ds[i] dL == IMin(1 + Rnd(salt, i, 60, 6), LCap(<< c.p, c.q >>) - c.L) IN
  T([c EXCEPT !.sig = "rand", !.real = FALSE, !.N = NestN(bk, c, dL, @)],
    [kind |-> "nest", bk |-> bk, dL |-> dL, w |-> w]))
\* filters of two band-limits (and all J0): the bank of the smaller is a sub-array of the other
NbTask(impl, L, dL, N, J0, lam, spin, w) ==
  BankTask("nb", impl, L, N, J0, lam, spin, 0, w) @@ [dL |-> dL]
NbDraw(salt, n, hi) == WithDraws({"base"}, salt, n, 3, hi, 9, LAMBDA i, d :
  NbTask(Pick(<< "vec", "loop", "vec", "vectorch" >>, salt, i, 50), d.L,
         IMin(1 + Rnd(salt, i, 60, 12), IMax(1, LCap(<< d.p, d.q >>) - d.L)), d.N, d.J0, << d.p, d.q >>, d.spin, 2))
P23 == NbDraw(235, Q(20, 200), 30)
       \o << NbTask("vec", 40, 24, 3, 0, Two, 0, 11), NbTask("vec", 64, 64, 2, 1, Two, -1, 11),
             NbTask("vec", 100, 60, 2, 1, Three, 0, 11), NbTask("loop", 60, 30, 2, 0, FiveHalves, 2, 11),
             NbTask("jax", 32, 32, 2, 0, Two, 0, 11), NbTask("vec", 130, 127, 1, 2, Two, 0, 11) >>
       \o NeDraw("base", 230, Q(18, 120), 3, 10, 5, 4) \o NeDraw("c", 231, Q(6, 50), 4, 9, 3, 7)
       \o NeDraw("torch", 232, Q(6, 40), 4, 8, 4, 10)

(******************************** C24 spin ***********************************)
SpinSmp == << "mw", "mwss", "dh", "gl" >>
\* both signs of every spin, up to the largest one at which s2fft is accurate
SpinCfgS(i, lo, hi, bks) ==
  LET c == Draw(bks, 240, i, lo, hi, 4)
      s == << 1, -1, 2, -2, 3, -3, -4, 4, -2, 2, -1, 1, 0 >>[1 + Rnd(241, i, 1, 3) * 4 + (i % 4)
            + IF i % 11 = 0 THEN 1 ELSE 0]
      a == IF i % 2 = 0 THEN 1 ELSE -1 IN
  [c EXCEPT !.real = FALSE, !.sig = "rand",
            !.spin = IF Rnd(241, i, 2, 6) = 0 THEN a * IMin(Accurate(c.L), c.L - 1)
                     ELSE IF s # 0 /\ Abs(s) < c.L THEN s ELSE a]
SpinCfg(i, lo, hi, bk) == SpinCfgS(i, lo, hi, {bk})
P24 == SeqMk(Q(20, 120), LAMBDA i : Gain("gain", "base", 3, SpinCfg(i, 4, 9, "base")))
       \o SeqMk(Q(10, 60), LAMBDA i : Rt("base", 2, SpinCfg(i + 50, 4, 10, "base")))
       \o SeqMk(Q(9, 60), LAMBDA i : Rt("c", 3, SpinCfg(i + 90, 4, 10, "c")))
       \o SeqMk(Q(5, 30), LAMBDA i : Gain("gain", "torch", 6, SpinCfg(i + 130, 4, 8, "torch")))
       \o SeqMk(Q(5, 30), LAMBDA i : Rt("pre", 6, SpinCfg(i + 170, 4, 8, "pre")))
       \o SeqMk(Q(5, 30), LAMBDA i : Rt("jax", 25, SpinCfg(i + 210, 4, 7, "jax")))
       \o SeqMk(Q(6, 40), LAMBDA i : Rt("loop", 3, SpinCfg(i + 250, 4, 7, "loop")))
       \o SeqMk(Q(8, 40), LAMBDA i : Agree("ana", "base", << "loop", "c", "torch" >>, 6, SpinCfgS(i + 290, 4, 8, {"c", "torch"})))
       \o SeqMk(Q(6, 30), LAMBDA i : Agree("syn", "base", << "loop", "c", "torch", "pre" >>, 9, SpinCfgS(i + 330, 4, 8, {"c", "torch", "pre"})))
       \o << Rt("c", 12, Cfg(160, 2, 2, Two, "mw", FALSE, 3)), Gain("gain", "c", 25, Cfg(72, 2, 2, Two, "mw", FALSE, -2)),
             Rt("c", 12, Cfg(64, 2, 1, Two, "mw", FALSE, -3)), Rt("c", 12, Cfg(40, 3, 3, Two, "gl", FALSE, 4)),
             Gain("gain", "base", 12, Cfg(20, 2, 1, Three, "mw", FALSE, -4)), Gain("gain", "c", 12, Cfg(34, 3, 2, Two, "mwss", FALSE, 4)) >>

(**************************** C26 rotations **********************************)
RoDraw(bk, salt, n, lo, hi, nmax, w) == LET ds == Draws({bk}, salt, n, lo, hi, nmax) IN SeqMk(n, LAMBDA i :
  T(ds[i], [kind |-> "rot", bk |-> bk, what |-> << "any", "any", "flip", "any", "polar" >>[1 + (i % 5)], w |-> w]))
RoOne(bk, w, what, c) == T(c, [kind |-> "rot", bk |-> bk, what |-> what, w |-> w])
P26 == RoDraw("base", 260, Q(18, 120), 3, 12, 5, 3) \o NoMR(RoDraw("base", 261, Q(4, 20), 3, 8, 4, 3))
       \o RoDraw("loop", 262, Q(6, 30), 3, 7, 4, 4) \o RoDraw("c", 263, Q(10, 80), 4, 12, 5, 5)
       \o RoDraw("pre", 264, Q(6, 30), 4, 8, 4, 8) \o RoDraw("torch", 265, Q(8, 40), 4, 8, 4, 7)
       \o RoDraw("jax", 266, Q(5, 30), 4, 7, 3, 30)
       \o << RoOne("c", 15, "any", Cfg(33, 3, 1, Two, "mw", FALSE, 0)), RoOne("c", 15, "flip", Cfg(24, 2, 0, Three, "gl", TRUE, 0)),
             RoOne("base", 15, "any", Cfg(20, 3, 0, Two, "dh", FALSE, -2)), RoOne("torch", 15, "any", Cfg(18, 4, 1, Two, "mwss", FALSE, 1)) >>

(**************************** C25 forms of a call ****************************)
\* how a caller may hold the same values and reach the same function
Layouts == << "fortran", "strided", "reversed", "readonly" >>
Forms(bk, op) ==
  << "keywords", "tuple", "realtype" >>
  \o (IF bk = "torch" THEN SubSeq(Layouts, 1, 2) \o << "nograd", "grad" >>
      ELSE IF bk = "c" THEN << "readonly" >> ELSE Layouts)
  \o (IF bk = "c" THEN << "numpy", "npint" >> ELSE IF bk = "torch" THEN << >> ELSE << "npint" >>)
  \o (IF bk \in {"jax", "pre"} THEN << "numpy", "jit", "jitargs", "vmap" >> ELSE << >>)
  \o (IF bk = "pre" THEN << "jvp" >> ELSE << >>)
  \o (IF bk # "c" THEN << "complex" >> ELSE << >>)
Ops(bk) == IF bk \in {"base", "loop"} THEN << "ana", "syn" >> ELSE << "ana", "syn", "flm" >>
FormW(bk, form) ==
  CASE bk = "jax" /\ form \in {"vmap", "jit", "jitargs"} -> 30 [] bk = "jax" -> 12
    [] bk = "pre" -> 8 [] bk \in {"c", "torch"} -> 4 [] OTHER -> 2
\* every form of every function; the configurations go round with the repetition
FormTasks(bk, op, rep, lo, hi) ==
  LET fs == Forms(bk, op)
      o == CASE op = "ana" -> 1 [] op = "syn" -> 2 [] OTHER -> 3 IN
  SeqMk(Len(fs) * rep, LAMBDA i :
    LET form == fs[1 + ((i - 1) % Len(fs))]
        d == Draw({bk}, 250 + o, IF bk \in {"base", "loop", "c"} THEN i ELSE (i % 2) + ((i - 1) \div Len(fs)) * 7, lo, hi, 4)
        real == form = "complex" \/ (d.real /\ form # "realtype") IN
    T([d EXCEPT !.real = real, !.spin = IF real \/ op = "flm" \/ form = "realtype" THEN 0 ELSE d.spin,
                !.sig = IF @ \in {"tiny", "huge", "mode"} THEN "rand" ELSE @],
      [kind |-> "form", bk |-> bk, op |-> op, form |-> form, w |-> FormW(bk, form)]))
FormBk(bk, rep, lo, hi) == FlattenSeq([o \in 1..Len(Ops(bk)) |-> FormTasks(bk, Ops(bk)[o], rep, lo, hi)])
P25 == FormBk("base", Q(2, 12), 3, 9) \o FormBk("loop", Q(1, 5), 3, 7) \o FormBk("c", Q(2, 10), 4, 10)
       \o FormBk("pre", Q(1, 5), 4, 6) \o FormBk("torch", Q(2, 10), 4, 8) \o FormBk("jax", Q(1, 4), 4, 6)

RawPlan ==
  CASE PROP = "C01" -> P01 [] PROP = "C02" -> P02 [] PROP = "C03" -> P03 [] PROP = "C04" -> P04
    [] PROP = "C05" -> P05 [] PROP = "C06" -> P06B \o P06K [] PROP = "C07" -> P07 [] PROP = "C08" -> P08
    [] PROP = "C09" -> P09 [] PROP = "C10" -> P10 [] PROP = "C11" -> P11 [] PROP = "C12" -> P12
    [] PROP = "C13" -> P13 [] PROP = "C14" -> P14 [] PROP = "C15" -> P15 [] PROP = "C17" -> P17
    [] PROP = "C18" -> P18 [] PROP = "C19" -> P19 [] PROP = "C20" -> P20 [] PROP = "C21" -> P21
    [] PROP = "C22" -> P22 [] PROP = "C23" -> P23 [] PROP = "C24" -> P24 [] PROP = "C25" -> P25 [] PROP = "C26" -> P26

Numbered == LET r == RawPlan IN [i \in 1..Len(r) |-> [id |-> i, prop |-> PROP] @@ r[i]]
ASSUME LET n == TLCEval(Numbered) IN ndJsonSerialize(IOEnv.VPLAN, n) /\ PrintT(<< "PLAN", Len(n) >>)
=============================================================================
