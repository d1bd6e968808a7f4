------------------------------ MODULE TraceErr ------------------------------
(* Recorded pairs of errors: what they say, and whether they are the same.    *)
EXTENDS Grammar, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE s
Bit(x) == IF x THEN 1 ELSE 0
ErrorsOfReading == DOMAIN ErrorText
Says(e, t, d) == e[1] \in ErrorsOfReading => t = ErrorText[e[1]] /\ d = t
Good(c) ==
  /\ c.k = "ok"
  /\ Says(c.a, c.ta, c.da) /\ Says(c.b, c.tb, c.db)
  /\ c.eq = Bit(c.a = c.b) /\ c.ne = Bit(c.a # c.b) /\ c.sym = c.eq /\ c.refl = 1
Expected(c) == <<Bit(c.a = c.b), IF c.a[1] \in ErrorsOfReading THEN ErrorText[c.a[1]] ELSE "", IF c.b[1] \in ErrorsOfReading THEN ErrorText[c.b[1]] ELSE "">>
Judge(c) == IF Good(c) THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, <<"C24">>, Expected(c)>>)
Init == s = 0
Next == /\ s < N /\ s' = s + 1
        /\ Judge(Trace[s + 1])
        /\ IF s + 1 = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
Spec == Init /\ [][Next]_s
(* No two errors say the same. *)
ASSUME \A e, f \in ErrorsOfReading : e # f => ErrorText[e] # ErrorText[f]
=============================================================================
