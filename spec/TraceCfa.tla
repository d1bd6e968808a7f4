------------------------------ MODULE TraceCfa ------------------------------
(* Each recorded call of find_control_flow is one run of the search.          *)
EXTENDS ControlFlow, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TrBlocks(r) == Trace[r].blocks

Blame(o) ==
  IF o.k \notin {"ok", "err"} THEN {"C16"} \cup (IF cout = <<"ok">> THEN {"C15"} ELSE {"C17"})
  ELSE IF cout = <<"ok">>
  THEN IF o.k = "err" THEN {"C15", "C17"}
       ELSE LET c == Recorded(o.c) IN IF Norm(<<c>>) = ret[1] /\ FlatForm(c) THEN {} ELSE {"C15"}
  ELSE IF o.k = "err" /\ o.e = cout THEN {} ELSE {"C17"}

Expected == IF cout = <<"ok">> THEN <<"ok", ret[1]>> ELSE cout
Judge ==
  LET b == Blame(Trace[crun].o) IN
  IF b = {} THEN TRUE ELSE PrintT(<<"MISMATCH", Trace[crun].n, SetToSeq(b), Expected>>)

TraceInit == SearchInit(1)
TraceNext ==
  \/ crun <= N /\ cmode # "done" /\ SearchNext
  \/ /\ crun <= N /\ cmode = "done"
     /\ Judge
     /\ IF crun = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
     /\ SearchRestart(crun + 1)
TraceSpec == TraceInit /\ [][TraceNext]_cvars
TraceInv == crun <= N => SearchTypeOK /\ Ends /\ Bounded
=============================================================================
