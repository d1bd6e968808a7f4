----------------------------- MODULE TracePrint -----------------------------
(* Recorded texts of chains, in both styles.                                  *)
EXTENDS Printing, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TrChain(r) == IF r <= N THEN Recorded(Trace[r].c) ELSE <<>>
TrBlocks(r) == Trace[r].blocks

Judge ==
  LET c == Trace[prun]
      got == IF pstyle = "chain" THEN c.t ELSE c.p
      lim == IF pstyle = "chain" THEN c.lt ELSE c.lp IN
  IF c.k = "ok" /\ got = plines /\ (lim # <<>> => \A k \in 1..Len(lim) : DeliveredOK(lim[k], WholeText(plines))) THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, <<"C19">>, <<pstyle, plines>>>>)

TraceInit == PInit(1, "chain")
TraceNext ==
  \/ prun <= N /\ PNext
  \/ /\ prun <= N /\ PDone
     /\ Judge
     /\ IF prun = N /\ pstyle = "function" THEN PrintT(<<"DONE", N>>) ELSE TRUE
     /\ IF pstyle = "chain" THEN PRestart(prun, "function") ELSE PRestart(prun + 1, "chain")
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars>>
TraceInv == prun <= N => Balanced
=============================================================================
