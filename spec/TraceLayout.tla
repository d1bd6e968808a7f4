---------------------------- MODULE TraceLayout ----------------------------
(* Trace specification of validation: each recorded call of validate is one   *)
(* run of the layout machine.                                                 *)
EXTENDS Layout, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TrInsts(r) == Trace[r].i

HasVariable == \E k \in 1..Len(InstsOf(lrun)) : InstsOf(lrun)[k][1] = <<"OpVariable">>
InFunctions == IF stage >= 10 \/ HasVariable THEN {"C12"} ELSE {}
Blame(o) ==
  IF o.k \notin {"ok", "err"} THEN {"C13", "C10"} \cup InFunctions \cup (IF lout = <<"ok">> THEN {"C11"} ELSE {})
  ELSE IF o.k = "ok" /\ lout = <<"ok">>
  THEN (IF o.secs = secs THEN {} ELSE {"C10"}) \cup
       (IF o.decls = decls /\ o.defs = defs THEN {} ELSE {"C12"}) \cup
       (IF Flat(o.secs, o.decls, o.defs) = InstsOf(lrun) THEN {} ELSE {"C11"})
  ELSE IF o.k = "err" /\ o.e = lout THEN {}
  ELSE {"C10"} \cup InFunctions \cup
       (IF o.k = "ok" /\ Flat(o.secs, o.decls, o.defs) # InstsOf(lrun) THEN {"C11"} ELSE {})

Expected == IF lout = <<"ok">> THEN <<"ok", secs, decls, defs>> ELSE lout
Judge ==
  LET b == Blame(Trace[lrun].o) IN
  IF b = {} THEN TRUE ELSE PrintT(<<"MISMATCH", Trace[lrun].n, SetToSeq(b), Expected>>)

TraceInit == LayoutInit(1)
TraceNext ==
  \/ lrun <= N /\ mode # "done" /\ LayoutNext
  \/ /\ lrun <= N /\ mode = "done"
     /\ Judge
     /\ IF lrun = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
     /\ LayoutRestart(lrun + 1)
TraceSpec == TraceInit /\ [][TraceNext]_lvars

TraceInv == lrun <= N => LayoutTypeOK /\ Lossless /\ Complete
=============================================================================
