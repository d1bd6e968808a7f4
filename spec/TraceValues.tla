----------------------------- MODULE TraceValues -----------------------------
(* Recorded histories of values: after every operation all slots are looked   *)
(* at and compared with each other.                                           *)
EXTENDS Values, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TrHistory(r) == Trace[r].ops
TrRefused(r, k) == k <= Len(Trace[r].obs) /\ Trace[r].obs[k].refused = 1

SlotOK(s, o) == o.k = store[s].k /\ o.h = store[s].h /\ o.i = store[s].i
PairText(s, t) == IF ~Comparable(s, t) THEN "-" ELSE IF Equal(s, t) THEN "1" ELSE "0"
Matches(o) ==
  /\ \A s \in Slots : SlotOK(s, o.slots[s])
  /\ \A s, t \in Slots : o.eq[s][t] = PairText(s, t)
Complain == PrintT(<<"MISMATCH", Trace[vrun].n, <<"C20">>, <<step, store>>>>)
Over(next) == (IF vrun = N THEN PrintT(<<"DONE", N>>) ELSE TRUE) /\ VRestart(next)

TraceInit == VInit(1)
(* One step, then the look at the store; a history that went wrong is not followed further. *)
TraceNext ==
  /\ vrun <= N
  /\ IF Trace[vrun].k # "ok" \/ (step > 0 /\ ~Matches(Trace[vrun].obs[step])) THEN Complain /\ Over(vrun + 1)
     ELSE IF VDone THEN Over(vrun + 1)
     ELSE VNext
TraceSpec == TraceInit /\ [][TraceNext]_vvars
=============================================================================
