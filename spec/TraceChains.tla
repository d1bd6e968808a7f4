----------------------------- MODULE TraceChains -----------------------------
(* Recorded comparisons of two recovered chains: equal exactly when they have *)
(* the same tokens.                                                           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE s
Bit(x) == IF x THEN 1 ELSE 0
Good(c) ==
  \/ c.k = "none"                                   \* one of the functions is refused
  \/ /\ c.k = "ok"
     /\ c.eq = Bit(c.ca = c.cb) /\ c.ne = Bit(c.ca # c.cb) /\ c.sym = c.eq /\ c.refl = 1
Judge(c) == IF Good(c) THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, <<"C20">>, <<Bit(c.ca = c.cb)>>>>)
Init == s = 0
Next == /\ s < N /\ s' = s + 1
        /\ Judge(Trace[s + 1])
        /\ IF s + 1 = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
Spec == Init /\ [][Next]_s
=============================================================================
