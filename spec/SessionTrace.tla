---------------------------- MODULE SessionTrace -----------------------------
(***************************************************************************)
(* Validates recorded sessions against Session: every step of the recorded *)
(* session is taken with Session's own Enabled/Apply, and the values       *)
(* observed in all live objects afterwards must be those of the store.     *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Plan  == ndJsonDeserialize(IOEnv.VPLAN)
Trace == ndJsonDeserialize(IOEnv.VTRACE)

VARIABLES sid, l, dead
E == Trace[sid]
tvars == << store, hist, sid, l, dead >>

TraceInit == Init /\ sid \in 1..Len(Trace) /\ l = 0 /\ dead = FALSE

Matches(i) == i <= Len(Plan) /\ \A f \in DOMAIN Plan[i] :
                f \in DOMAIN Trace[i] /\ Trace[i][f] = Plan[i][f]
Report(bad) == \A c \in bad : PrintT(<< "FAIL", sid, c >>)
Fail(ok, name) == IF ok THEN {} ELSE {name}
Where(o) == o.op \o "-" \o o.bk

\* the session as a whole
Begin ==
  /\ l = 0 /\ ~ dead
  /\ LET bad == Fail(Matches(sid), "unplanned")
                \cup Fail(E.err = "" /\ Len(E.steps) = Len(E.hist), "session-completes")
     IN Report(bad) /\ dead' = ((E.err # "") \/ "steps" \notin DOMAIN E)
  /\ l' = 1 /\ UNCHANGED << store, hist, sid >>

Expected(o) == IF o.op = "reject" THEN "ValueError" ELSE ""

StepBad(o, ob, st, new) ==
  Fail(ob.err = Expected(o), "returns:" \o Where(o))
  \cup (IF ob.err # Expected(o) THEN {}
        ELSE IF Len(ob.vals) # Len(new) THEN {"objects"}
        ELSE UNION { IF Contains(ob.vals[i], Value(new[i])) THEN {}
                     ELSE IF i \in DOMAIN st THEN {"undisturbed:" \o Where(o) \o "-" \o new[i].k}
                     ELSE {"result:" \o Where(o)} : i \in DOMAIN new })
  \cup Fail(ob.glob = "same", "process-state:" \o Where(o))

Take ==
  /\ ~ dead /\ l >= 1 /\ l <= Len(E.steps)
  /\ LET o == E.hist[l]  ob == E.steps[l] IN
       IF ~ Enabled(store, o)
       THEN Report({"not-a-behaviour"}) /\ dead' = TRUE /\ UNCHANGED << store, hist >>
       ELSE /\ store' = Apply(store, o) /\ hist' = << o >>
            /\ Report(StepBad(o, ob, store, store'))
            \* after a first deviation the rest of the session is not comparable
            /\ dead' = (StepBad(o, ob, store, store') # {})
  /\ l' = l + 1 /\ UNCHANGED sid

TraceNext == Begin \/ Take
TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* every session was begun and every step up to the first deviation taken
Total == FoldLeft(LAMBDA a, e : a + 2 + (IF "steps" \in DOMAIN e THEN Len(e.steps) ELSE 0), 0, Trace)
Complete == /\ Len(Trace) = Len(Plan)
            /\ TLCGet("stats").distinct >= 2 * Len(Trace)
            /\ PrintT(<< "JUDGED", Len(Trace), IF TLCGet("stats").distinct = Total THEN "all" ELSE "partly" >>)

MCCfgs == {"a", "b"}
MCSigs == {"1", "2"}
MCBackends == {"base", "loop", "c", "pre", "torch", "jax"}
MCMaxLen == 999
=============================================================================
