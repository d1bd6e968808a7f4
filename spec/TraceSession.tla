---------------------------- MODULE TraceSession ----------------------------
(* Recorded sessions.  The answers known at the start are those each call     *)
(* gave alone in a process of its own.                                        *)
EXTENDS Session, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TrPlan(r, t) == Trace[r].o[t]
TrThreads(r) == IF r <= N THEN 1..Len(Trace[r].o) ELSE {}
TrSays(r, t, k) == Trace[r].d[t][k]
Known(r) == IF r <= N THEN Trace[r].alone ELSE <<>>

First == CHOOSE t \in ThreadsOf(srun) : done[t] < Len(PlanOf(srun, t)) /\ \A u \in ThreadsOf(srun) : u < t => done[u] = Len(PlanOf(srun, u))
Next_(r) == (IF r > N THEN PrintT(<<"DONE", N>>) ELSE TRUE) /\ SRestart(r, Known(r), TrThreads(r))
Recorded == Trace[srun].k = "ok" /\ Len(Trace[srun].d) = Len(Trace[srun].o)
            /\ \A t \in ThreadsOf(srun) : Len(Trace[srun].d[t]) = Len(Trace[srun].o[t])
Complain(what) == PrintT(<<"MISMATCH", Trace[srun].n, <<"C21">>, what>>)

TraceInit == SInit(1, Known(1))
TraceNext ==
  /\ srun <= N
  /\ IF ~Recorded THEN Complain(<<"no answers">>) /\ Next_(srun + 1)
     ELSE IF AllDone THEN Next_(srun + 1)
     ELSE IF First \in busy /\ ~ENABLED EndOf(First)
     THEN Complain(<<"thread", First, "call", done[First] + 1, Call(First), "alone", answers[Call(First)], "here", Answer(First)>>) /\ Next_(srun + 1)
     ELSE Begin(First) \/ EndOf(First)
TraceSpec == TraceInit /\ [][TraceNext]_svars
=============================================================================
