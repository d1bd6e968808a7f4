------------------------------ MODULE TraceDis ------------------------------
(* Recorded texts of modules, and of each instruction on its own and as part  *)
(* of a block.                                                                *)
EXTENDS Disasm, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TrHeader(r) == Trace[r].h
TrInsts(r) == Trace[r].i

InstLines == SubSeq(dline, 6, Len(dline))
GroupOK(g, want) == g = "" \/ g = want
Good(c) ==
  /\ c.k = "ok"
  /\ c.w = WholeText(dline)
  /\ c.s = InstLines
  /\ \A k \in 1..Len(c.l) : DeliveredOK(c.l[k], c.w)
  /\ Len(c.g) = Len(InstLines) /\ \A k \in 1..Len(c.g) : GroupOK(c.g[k], InstLines[k])
Judge ==
  LET c == Trace[drun] IN
  IF Good(c) THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, <<"C18">>, dline>>)

TraceInit == DInit(1)
TraceNext ==
  \/ drun <= N /\ DNext
  \/ /\ drun <= N /\ DDone
     /\ Judge
     /\ IF drun = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
     /\ DRestart(drun + 1)
TraceSpec == TraceInit /\ [][TraceNext]_dvars
TraceInv == drun <= N => LinesOK
=============================================================================
