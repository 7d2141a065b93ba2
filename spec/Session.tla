------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Histories of API calls.                                                 *)
(*                                                                         *)
(* A session is one process that holds objects (signals, filters, kernels, *)
(* coefficients), calls the library on them in any order, overwrites       *)
(* objects it owns, makes calls that are rejected and calls from several   *)
(* threads.  The store maps each handle (its position) to an abstract      *)
(* value.  The library is required to be a function of the arguments: a    *)
(* call appends the value determined by its arguments and changes nothing  *)
(* else -- not its inputs, not earlier results, not the process.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Cfgs, Sigs, Backends, MaxLen

\* backends by what they need
Libs == [ base |-> "none", loop |-> "none", c |-> "np", jax |-> "np", pre |-> "np", torch |-> "torch" ]
NeedsKer(b) == b \in {"pre", "torch"}
KerLib(b) == IF b = "torch" THEN "torch" ELSE "jax"

\* an object: kind, configuration, signal, library, direction, and whether
\* the caller has overwritten it
Obj(k, c, s, lib, fw) == [k |-> k, c |-> c, s |-> s, lib |-> lib, fw |-> fw, dirty |-> FALSE]

\* the abstract value an observer must find in an object
Value(o) ==
  IF o.dirty THEN "scribbled"
  ELSE CASE o.k \in {"sig", "rec"} -> "s:" \o o.c \o ":" \o o.s      \* synthesis inverts analysis
         [] o.k = "wav" -> "w:" \o o.c \o ":" \o o.s
         [] o.k = "mod" -> "m:" \o o.c \o ":" \o o.s
         [] o.k = "flm" -> "l:" \o o.c \o ":" \o o.s
         [] o.k = "flw" -> "v:" \o o.c \o ":" \o o.s
         [] o.k = "flt" -> "f:" \o o.c
         [] o.k = "aux" -> "a:" \o o.c \o ":" \o o.s
         [] o.k = "ker" -> "k:" \o o.c \o ":" \o o.fw

\* the building blocks a caller can ask for: the tiling, the azimuthal weights, the
\* axisymmetric and looped filters, and empty arrays to fill
Auxes == { "klam", "dir", "dirj", "axi", "axil", "fltl", "f0", "lm0", "lmn0" }

Has(st, i) == i \in DOMAIN st
Is(st, i, ks, c) == Has(st, i) /\ st[i].k \in ks /\ st[i].c = c /\ ~ st[i].dirty

\* an operation is a record with the same fields throughout
Op2(op, c, s, bk, h, g, f, k, x) == [op |-> op, c |-> c, s |-> s, bk |-> bk, h |-> h, g |-> g, f |-> f, k |-> k, x |-> x]
Op(op, c, s, bk, h, f, k, x) == Op2(op, c, s, bk, h, 0, f, k, x)

FltOK(st, bk, c, f) == IF Libs[bk] = "none" THEN f = 0
                       ELSE f = 0 \/ (Is(st, f, {"flt"}, c) /\ st[f].lib = Libs[bk])
KerOK(st, bk, c, k, fw) == IF NeedsKer(bk) THEN Is(st, k, {"ker"}, c) /\ st[k].lib = KerLib(bk) /\ st[k].fw = fw
                           ELSE k = 0

\* what a transform of the object gives: a signal is analysed, coefficients are synthesised
Job(st, i) == IF ~ Has(st, i) THEN "none" ELSE IF st[i].dirty THEN "none"
              ELSE IF st[i].k \in {"sig", "rec"} THEN "wav" ELSE IF st[i].k = "wav" THEN "rec" ELSE "none"
Result(st, i) == Obj(Job(st, i), st[i].c, st[i].s, "none", "none")

Enabled(st, o) ==
  CASE o.op = "sig" -> TRUE
    [] o.op = "lmn" -> TRUE
    [] o.op = "flt" -> TRUE
    [] o.op = "ker" -> TRUE
    [] o.op = "aux" -> o.s \in Auxes
    [] o.op \in {"ana", "par"} -> /\ Is(st, o.h, {"sig", "rec"}, o.c) /\ FltOK(st, o.bk, o.c, o.f)
                                  /\ KerOK(st, o.bk, o.c, o.k, "inv")
    [] o.op = "scat" -> Is(st, o.h, {"sig", "rec"}, o.c)
    [] o.op \in {"mix", "sched"} ->
         /\ Job(st, o.h) # "none" /\ Job(st, o.g) # "none" /\ o.f = 0
         /\ (o.op = "sched" => o.bk \in {"base", "loop", "c", "torch"})
         /\ NeedsKer(o.bk) => (st[o.h].c = st[o.g].c /\ Job(st, o.h) = "wav" /\ Job(st, o.g) = "wav")
         /\ KerOK(st, o.bk, st[o.h].c, o.k, "inv")
    [] o.op = "flm" -> /\ Is(st, o.h, {"flm"}, o.c) /\ o.bk \notin {"base", "loop"}
                       /\ FltOK(st, o.bk, o.c, o.f) /\ KerOK(st, o.bk, o.c, o.k, "inv")
    [] o.op = "syn" -> /\ Is(st, o.h, {"wav"}, o.c) /\ FltOK(st, o.bk, o.c, o.f)
                       /\ KerOK(st, o.bk, o.c, o.k, "fwd")
    [] o.op = "scribble" -> Has(st, o.h) /\ ~ st[o.h].dirty
    [] o.op = "reject" -> TRUE

\* par:   the same call from o.x threads at once
\* mix:   o.x threads at once, transforming o.h and o.g in turn
\* sched: the transform of o.h suspended in the middle, the transform of o.g run to its
\*        end by another thread, the first resumed; at o.x different points
Apply(st, o) ==
  CASE o.op = "sig" -> Append(st, Obj("sig", o.c, o.s, "none", "none"))
    [] o.op = "lmn" -> Append(st, Obj("flm", o.c, o.s, "none", "none"))
    [] o.op = "flt" -> Append(st, Obj("flt", o.c, "none", o.bk, "none"))
    [] o.op = "ker" -> Append(st, Obj("ker", o.c, "none", o.bk, o.s))
    [] o.op = "aux" -> Append(st, Obj("aux", o.c, o.s, "none", "none"))
    [] o.op = "ana" -> Append(st, Obj("wav", o.c, st[o.h].s, "none", "none"))
    [] o.op = "par" -> st \o [i \in 1..o.x |-> Obj("wav", o.c, st[o.h].s, "none", "none")]
    [] o.op = "mix" -> st \o [i \in 1..o.x |-> Result(st, IF i % 2 = 1 THEN o.h ELSE o.g)]
    [] o.op = "sched" -> st \o << Result(st, o.h), Result(st, o.g) >>
    [] o.op = "scat" -> Append(st, Obj("mod", o.c, st[o.h].s, "none", "none"))
    [] o.op = "flm" -> Append(st, Obj("flw", o.c, st[o.h].s, "none", "none"))
    [] o.op = "syn" -> Append(st, Obj("rec", o.c, st[o.h].s, "none", "none"))
    [] o.op = "scribble" -> [st EXCEPT ![o.h].dirty = TRUE]
    [] o.op = "reject" -> st

Hs(st) == DOMAIN st
Layouts == 0..3                 \* C order, strided view, Fortran order, read-only

\* what a call on the object in h may be given as filters and kernels
Flts(st, bk, c) == {0} \cup { f \in Hs(st) : Libs[bk] # "none" /\ Is(st, f, {"flt"}, c) /\ st[f].lib = Libs[bk] }
Kers(st, bk, c, fw) == IF NeedsKer(bk) THEN { k \in Hs(st) : KerOK(st, bk, c, k, fw) } ELSE {0}
On(st, ks) == { h \in Hs(st) : st[h].k \in ks /\ ~ st[h].dirty }
Calls(st, op, ks, fw, x) ==
  UNION { UNION { { Op(op, st[h].c, "none", b, h, f, k, x)
                    : f \in Flts(st, b, st[h].c), k \in Kers(st, b, st[h].c, fw) }
                  : b \in Backends } : h \in On(st, ks) }
Pairwise(st, op, bks, x) ==
  UNION { { o \in { Op2(op, st[h].c, "none", b, h, g, 0, k, x)
                   : b \in bks, k \in {0} \cup { k \in Hs(st) : st[k].k = "ker" } } : Enabled(st, o) }
          : h \in On(st, {"sig", "rec", "wav"}), g \in On(st, {"sig", "rec", "wav"}) }
Classes == { "sig", "lmn", "flt", "ker", "reject", "scribble", "scat", "ana", "par", "flm", "syn",
             "mix", "sched", "aux" }
OpsOf(st, cls) ==
  CASE cls = "sig" -> { Op("sig", c, s, "none", 0, 0, 0, x) : c \in Cfgs, s \in Sigs, x \in Layouts }
    [] cls = "lmn" -> { Op("lmn", c, s, "none", 0, 0, 0, 0) : c \in Cfgs, s \in { s \in Sigs : Backends \ {"base", "loop"} # {} } }
    [] cls = "flt" -> { Op("flt", c, "none", l, 0, 0, 0, 0) : c \in Cfgs, l \in { Libs[b] : b \in Backends } \ {"none"} }
    [] cls = "ker" -> { Op("ker", c, fw, KerLib(b), 0, 0, 0, 0) : c \in Cfgs, fw \in {"fwd", "inv"},
                                                                  b \in { b \in Backends : NeedsKer(b) } }
    [] cls = "aux" -> { Op("aux", c, s, "none", 0, 0, 0, 0) : c \in Cfgs, s \in Auxes }
    [] cls = "reject" -> { Op("reject", c, "none", b, 0, 0, 0, x) : c \in Cfgs, b \in Backends \cap {"base", "loop"}, x \in {0, 1} }
    [] cls = "scribble" -> { Op("scribble", st[h].c, "none", "none", h, 0, 0, 0)
                             : h \in { h \in Hs(st) : st[h].k # "ker" /\ ~ st[h].dirty } }
    [] cls = "scat" -> { Op("scat", st[h].c, "none", "base", h, 0, 0, 0) : h \in On(st, {"sig", "rec"}) }
    [] cls = "ana" -> Calls(st, "ana", {"sig", "rec"}, "inv", 0)
    [] cls = "par" -> Calls(st, "par", {"sig", "rec"}, "inv", 3)
    [] cls = "mix" -> Pairwise(st, "mix", Backends, 4)
    [] cls = "sched" -> Pairwise(st, "sched", Backends \cap {"base", "loop", "c", "torch"}, 10)
    [] cls = "flm" -> Calls(st, "flm", {"flm"}, "inv", 0)
    [] cls = "syn" -> Calls(st, "syn", {"wav"}, "fwd", 0)
Ops(st) == UNION { OpsOf(st, cls) : cls \in Classes }

VARIABLES store, hist
vars == << store, hist >>
Init == store = << >> /\ hist = << >>
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops(store) : /\ Enabled(store, o)
                                 /\ store' = Apply(store, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the model, checked exhaustively on short histories.       *)
(***************************************************************************)
Values(st) == [i \in DOMAIN st |-> Value(st[i])]
\* nothing but an explicit overwrite by the caller changes an existing value
Frame == [][ \A i \in DOMAIN store : Value(store'[i]) # Value(store[i]) =>
               (Last(hist').op = "scribble" /\ Last(hist').h = i) ]_vars
\* results are functions of the arguments, whatever happened before
RECURSIVE Replay(_, _)
Replay(st, h) == IF h = << >> THEN st ELSE Replay(Apply(st, Head(h)), Tail(h))
Deterministic == store = Replay(<< >>, hist)
\* round trip: every reconstruction equals the signal that was analysed
RecIsSignal == \A i \in DOMAIN store : (store[i].k = "rec" /\ ~ store[i].dirty) =>
                  Value(store[i]) \in { "s:" \o c \o ":" \o s : c \in Cfgs, s \in Sigs }
=============================================================================
