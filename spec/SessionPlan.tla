----------------------------- MODULE SessionPlan -----------------------------
(***************************************************************************)
(* Seeded random walks through Session's transition relation, written as   *)
(* tasks.  The class of the next operation is drawn first (weighted), then *)
(* an enabled operation of that class; if none is enabled the walk takes   *)
(* whatever makes one enabled later (a new signal).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

SEED == atoi(IOEnv.VERIF_SEED) % 1000
DEEP == IOEnv.VERIF_TIER = "thorough"
Q(a, b) == IF DEEP THEN b ELSE a

Lcg(x) == (x * 75 + 74) % 65537
Rnd(sid, i, k, n) ==
  LET s == (SEED * 131 + sid * 6131 + i * 7919 + k * 10473) % 65537
  IN (Lcg(Lcg(Lcg((Lcg(s) + k * 311) % 65537))) \div 7) % n

\* backends of a session, drawn in turn
BkSets == << {"base"}, {"base", "torch"}, {"base", "loop"}, {"base", "loop", "c"}, {"base"}, {"pre", "base"},
             {"base", "c"}, {"base", "loop"}, {"jax", "base"}, {"base"}, {"torch", "pre"}, {"c", "base", "loop"} >>
Bk(sid) == BkSets[1 + (sid % 12)]

S(sid) == INSTANCE Session WITH Cfgs <- {"a", "b"}, Sigs <- {"1", "2"}, Backends <- Bk(sid),
                                MaxLen <- 99, store <- << >>, hist <- << >>

Wheel == << "ana", "syn", "ana", "syn", "flm", "scribble", "ana", "syn", "flt", "par", "scat",
              "sig", "syn", "reject", "ana", "flm", "lmn", "scribble", "syn", "ker", "flm", "mix", "sched", "mix", "aux" >>

\* a kernel is expensive: at most one per configuration, direction, library
Fresh(st, o) == o.op # "ker" \/ ~ \E i \in DOMAIN st :
   st[i].k = "ker" /\ st[i].c = o.c /\ st[i].fw = o.s /\ st[i].lib = o.bk
Cands(sid, st, cls) == { o \in S(sid)!OpsOf(st, cls) : S(sid)!Enabled(st, o) /\ Fresh(st, o) }
PickFrom(set, r) == LET q == SetToSeq(set) IN q[1 + (r % Len(q))]

Step(sid, acc, i) ==
  LET st == acc[1]
      try(k) == Cands(sid, st, Wheel[1 + Rnd(sid, i, k, Len(Wheel))])
      first == LET a == TLCEval(try(1)) IN IF a # {} THEN a ELSE
               LET b == TLCEval(try(2)) IN IF b # {} THEN b ELSE
               LET c == TLCEval(try(3)) IN IF c # {} THEN c ELSE Cands(sid, st, "sig")
      o == PickFrom(first, Rnd(sid, i, 9, 10007))
  IN << TLCEval(S(sid)!Apply(st, o)), Append(acc[2], o) >>

\* opening moves: signals of both configurations, kernels where needed
Opening(sid) ==
  LET ks == { b \in Bk(sid) : b \in {"pre", "torch"} }
      o1 == << S(sid)!Op("sig", "a", "1", "none", 0, 0, 0, Rnd(sid, 0, 1, 4)),
               S(sid)!Op("sig", "b", "1", "none", 0, 0, 0, Rnd(sid, 0, 2, 4)),
               S(sid)!Op("sig", "a", "2", "none", 0, 0, 0, 0) >>
      o2 == FlattenSeq([i \in 1..Cardinality(ks) |->
              LET b == SetToSeq(ks)[i] IN
              << S(sid)!Op("ker", "a", "inv", S(sid)!KerLib(b), 0, 0, 0, 0),
                 S(sid)!Op("ker", "a", "fwd", S(sid)!KerLib(b), 0, 0, 0, 0) >>])
      o3 == IF Bk(sid) \ {"base", "loop"} = {} THEN << >> ELSE << S(sid)!Op("lmn", "a", "1", "none", 0, 0, 0, 0) >>
  IN o1 \o o3 \o o2
Walk(sid, n) ==
  LET op == Opening(sid)
      st0 == FoldLeft(LAMBDA st, o : S(sid)!Apply(st, o), << >>, op)
  IN FoldLeft(LAMBDA acc, i : Step(sid, acc, i), << st0, op >>, [i \in 1..n |-> i])[2]

\* two small configurations; "b" differs from "a" in everything that could be cached on
Cf(L, N, J0, p, q, smp, real, spin) ==
  [ L |-> L, N |-> N, J0 |-> J0, p |-> p, q |-> q, smp |-> smp, nside |-> -1, real |-> real,
    spin |-> spin, spin0 |-> 0, mr |-> TRUE, seed |-> SEED, lamint |-> FALSE, sig |-> "rand" ]
Pairs == << << Cf(6, 2, 0, 2, 1, "mw", FALSE, 0), Cf(6, 2, 1, 2, 1, "mw", FALSE, 0) >>,
            << Cf(7, 2, 0, 2, 1, "mw", FALSE, 0), Cf(7, 2, 0, 5, 2, "mw", FALSE, 0) >>,
            << Cf(5, 3, 0, 2, 1, "mwss", FALSE, 0), Cf(5, 3, 0, 3, 1, "mwss", FALSE, 0) >>,
            << Cf(6, 3, 1, 2, 1, "mw", TRUE, 0), Cf(6, 3, 1, 2, 1, "mw", FALSE, 0) >>,
            << Cf(6, 2, 0, 2, 1, "mw", FALSE, 0), Cf(6, 2, 0, 2, 1, "gl", FALSE, 0) >>,
            << Cf(6, 2, 0, 3, 1, "gl", FALSE, 0), Cf(6, 3, 0, 3, 1, "gl", FALSE, 0) >>,
            << Cf(8, 2, 0, 3, 1, "mw", FALSE, 0), Cf(8, 2, 0, 7, 2, "mw", FALSE, 0) >>,
            << Cf(5, 2, 0, 5, 2, "dh", FALSE, 0), Cf(6, 2, 0, 5, 2, "mw", FALSE, 0) >>,
            << Cf(6, 2, 1, 2, 1, "mw", FALSE, 2), Cf(6, 2, 1, 2, 1, "mw", FALSE, -2) >>,
            << Cf(7, 2, 1, 2, 1, "mw", FALSE, 0), Cf(8, 2, 1, 2, 1, "mw", FALSE, 0) >>,
            << Cf(6, 2, 1, 2, 1, "mw", FALSE, 0), Cf(6, 2, 1, 2, 1, "mw", FALSE, 1) >> >>

Task(sid) ==
  LET pr == Pairs[1 + ((sid + SEED) % Len(Pairs))] IN
  [ kind |-> "sess", w |-> IF Bk(sid) \cap {"pre", "torch", "jax"} # {} THEN 40 ELSE 20, a |-> pr[1], b |-> pr[2], bks |-> SetToSeq(Bk(sid)),
    hist |-> Walk(sid, IF "jax" \in Bk(sid) THEN Q(9, 16) ELSE Q(16, 40)) ]
N == Q(36, 144)

\* directed sessions: two transforms interleaved at many points
OpD(o, c, s, b, h, g, k, x) == S(0)!Op2(o, c, s, b, h, g, 0, k, x)
Sig(c, s) == OpD("sig", c, s, "none", 0, 0, 0, 0)
Prepare(b) == << Sig("a", "1"), Sig("a", "2"), Sig("b", "1"),
                 OpD("ana", "a", "none", "base", 1, 0, 0, 0), OpD("ana", "a", "none", "base", 2, 0, 0, 0) >>
              \o (IF b = "torch" THEN << OpD("ker", "a", "inv", "torch", 0, 0, 0, 0) >> ELSE << >>)
\* handles: 1, 2 signals of a; 3 signal of b; 4, 5 coefficients of a; 6 kernel
Directed(b, h, g, x) == Prepare(b) \o << OpD("sched", "a", "none", b, h, g, IF b = "torch" THEN 6 ELSE 0, x),
                                         OpD("mix", "a", "none", b, h, g, IF b = "torch" THEN 6 ELSE 0, 4) >>
DirectedAll == << << "base", 1, 2 >>, << "base", 4, 5 >>, << "base", 1, 3 >>, << "loop", 1, 2 >>, << "loop", 4, 5 >>,
                  << "c", 1, 2 >>, << "c", 4, 5 >>, << "c", 1, 3 >>, << "torch", 1, 2 >>, << "base", 1, 4 >>, << "loop", 4, 1 >> >>
DTask(i) ==
  LET d == DirectedAll[i] pr == Pairs[1 + ((3 * i + SEED) % Len(Pairs))] IN
  [ kind |-> "sess", w |-> 60, a |-> pr[1], b |-> pr[2], bks |-> << d[1], "base" >>,
    hist |-> Directed(d[1], d[2], d[3], Q(60, 300)) ]

\* the building blocks made, overwritten by the caller, made again, and then used by the transforms
AuxSeq == SetToSeq(S(0)!Auxes)
Scr(c, h) == OpD("scribble", c, "none", "none", h, 0, 0, 0)
AuxOp(c, i) == OpD("aux", c, AuxSeq[i], "none", 0, 0, 0, 0)
NA == Len(AuxSeq)
Blocks(c) ==
  [i \in 1..NA |-> AuxOp(c, i)] \o << OpD("flt", c, "none", "np", 0, 0, 0, 0) >>     \* 1..NA, NA+1
  \o << Sig(c, "1") >>                                                                \* NA+2
  \o [i \in 1..(NA + 1) |-> Scr(c, i)]
  \o << OpD("ana", c, "none", "base", NA + 2, 0, 0, 0) >>                              \* NA+3
  \o [i \in 1..NA |-> AuxOp(c, i)] \o << OpD("flt", c, "none", "np", 0, 0, 0, 0) >>
  \o << OpD("ana", c, "none", "loop", NA + 2, 0, 0, 0), OpD("syn", c, "none", "base", NA + 3, 0, 0, 0),
        OpD("syn", c, "none", "loop", NA + 3, 0, 0, 0), Scr(c, NA + 3), OpD("ana", c, "none", "base", NA + 2, 0, 0, 0) >>
\* filters and kernels handed to every function that takes them, used again, overwritten, made anew
OpF(o, b, h, f, k) == S(0)!Op2(o, "a", "none", b, h, 0, f, k, 0)
Given(b) ==
  LET kl == S(0)!KerLib(b) ker == S(0)!NeedsKer(b)
      lib == S(0)!Libs[b] ki == IF ker THEN 5 ELSE 0 kf == IF ker THEN 6 ELSE 0
      n == IF ker THEN 6 ELSE 4 IN
  << Sig("a", "1"), Sig("a", "2"), OpD("lmn", "a", "1", "none", 0, 0, 0, 0), OpD("flt", "a", "none", lib, 0, 0, 0, 0) >>
  \o (IF ker THEN << OpD("ker", "a", "inv", kl, 0, 0, 0, 0), OpD("ker", "a", "fwd", kl, 0, 0, 0, 0) >> ELSE << >>)
  \o << OpF("ana", b, 1, 4, ki), OpF("ana", b, 2, 4, ki), OpF("syn", b, n + 2, 4, kf), OpF("flm", b, 3, 4, ki),
        OpF("syn", b, n + 1, 4, kf), OpF("ana", b, 1, 4, ki), OpF("flm", b, 3, 4, ki),
        Scr("a", 4), OpD("flt", "a", "none", lib, 0, 0, 0, 0), OpF("ana", b, 2, n + 8, ki), OpF("syn", b, n + 1, n + 8, kf) >>
GivenAll == << "torch", "pre", "c", "jax", "torch", "c", "pre" >>
NG == Len(GivenAll)
GTask(i) ==
  LET pr == Pairs[1 + ((2 * i + SEED) % Len(Pairs))] b == GivenAll[i] IN
  [ kind |-> "sess", w |-> 45, a |-> pr[1], b |-> pr[2], bks |-> << b >>, hist |-> Given(b) ]
BTask(i) ==
  LET pr == Pairs[1 + ((4 * i + SEED) % Len(Pairs))] IN
  [ kind |-> "sess", w |-> 12, a |-> pr[1], b |-> pr[2], bks |-> << "base", "loop" >>, hist |-> Blocks(IF i % 2 = 0 THEN "a" ELSE "b") ]
NB == Q(4, 12)
ND == Len(DirectedAll)
TaskNo(i) == IF i <= N THEN Task(i - 1) ELSE IF i <= N + ND THEN DTask(i - N)
             ELSE IF i <= N + ND + NG THEN GTask(i - N - ND) ELSE BTask(i - N - ND - NG)
Plan == [i \in 1..(N + ND + NG + NB) |-> [id |-> i, prop |-> "C16"] @@ TaskNo(i)]
ASSUME LET n == TLCEval(Plan) IN ndJsonSerialize(IOEnv.VPLAN, n) /\ PrintT(<< "PLAN", Len(n) >>)
=============================================================================
