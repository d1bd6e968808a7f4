------------------------------- MODULE TraceEq -------------------------------
(* Recorded comparisons of two modules: equal exactly when all fields are.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE s
Bit(x) == IF x THEN 1 ELSE 0
Shorter(c) == IF Len(c.a) < Len(c.b) THEN Len(c.a) ELSE Len(c.b)
Good(c) ==
  LET same == c.ha = c.hb /\ c.a = c.b IN
  /\ c.k = "ok"
  /\ c.eq = Bit(same) /\ c.ne = Bit(~same) /\ c.sym = Bit(same)
  /\ c.refl = 1 /\ c.copy = 1 /\ c.kept = 1
  /\ Len(c.per) = Shorter(c)
  /\ \A k \in 1..Shorter(c) : c.per[k] = (IF c.a[k] = c.b[k] THEN "1" ELSE "0")
  /\ c.log \in {"none", IF c.a = c.b THEN "1" ELSE "0"}      \* logical modules have no header
Judge(c) == IF Good(c) THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, <<"C20">>, <<Bit(c.ha = c.hb /\ c.a = c.b)>>>>)
Init == s = 0
Next == /\ s < N /\ s' = s + 1
        /\ Judge(Trace[s + 1])
        /\ IF s + 1 = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
Spec == Init /\ [][Next]_s
=============================================================================
