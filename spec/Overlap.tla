------------------------------- MODULE Overlap -------------------------------
(***************************************************************************)
(* Overlapping calls.  Session's operations are atomic; here a transform   *)
(* begins (its arguments are read), other threads begin, finish, or fill   *)
(* their own objects, and the transform ends.  Because a call reads only   *)
(* its arguments and writes only its result, every overlapping history has *)
(* the outcome of the sequential history in which each call happens when   *)
(* it ends.  The "mix" and "sched" operations of Session are the           *)
(* sequentialised forms of such histories, replayed on the code with real  *)
(* threads; that replacement is what this module justifies.                *)
(***************************************************************************)
EXTENDS Session

CONSTANT Threads
VARIABLES busy, ended      \* busy: thread -> call in progress (or idle); ended: calls in order of ending
ovars == << store, hist, busy, ended >>
Idle == [op |-> "idle"]

OInit == Init /\ busy = [t \in Threads |-> Idle] /\ ended = << >>
\* the objects some call in progress still reads; the caller must not overwrite those
InUse == UNION { IF busy[t] = Idle THEN {} ELSE {busy[t].h, busy[t].f, busy[t].k} : t \in Threads }

Quick == {"sig", "lmn", "flt", "scribble"}
\* a result appears in the store only when the call ends
Atomic(t) == \E cls \in Quick : \E o \in OpsOf(store, cls) :
  /\ busy[t] = Idle /\ Enabled(store, o) /\ (o.op = "scribble" => o.h \notin InUse)
  /\ store' = Apply(store, o) /\ hist' = Append(hist, o) /\ ended' = Append(ended, o)
  /\ UNCHANGED busy
Begin(t) == \E cls \in {"ana", "syn", "flm", "scat"} : \E o \in OpsOf(store, cls) :
  /\ busy[t] = Idle /\ Enabled(store, o)
  /\ busy' = [busy EXCEPT ![t] = o @@ [got |-> Last(Apply(store, o))]]   \* determined by what was read
  /\ UNCHANGED << store, hist, ended >>
End(t) ==
  /\ busy[t] # Idle
  /\ store' = Append(store, busy[t].got)
  /\ hist' = Append(hist, Op(busy[t].op, busy[t].c, busy[t].s, busy[t].bk, busy[t].h, busy[t].f, busy[t].k, busy[t].x))
  /\ ended' = hist' /\ busy' = [busy EXCEPT ![t] = Idle]
ONext == /\ Len(hist) + Cardinality({t \in Threads : busy[t] # Idle}) < MaxLen
         /\ \E t \in Threads : Atomic(t) \/ Begin(t)
      \/ \E t \in Threads : End(t)
OSpec == OInit /\ [][ONext]_ovars

\* the same store as the sequential history of the endings
Sequential == store = Replay(<< >>, hist)
\* ... every call of which was enabled when it ended
Legal == \A n \in DOMAIN hist : LET st == Replay(<< >>, SubSeq(hist, 1, n - 1)) IN
            Enabled(st, hist[n])
\* a call in progress changes nothing that can be observed
Silent == [][ (hist' = hist) => (store' = store) ]_ovars
=============================================================================
