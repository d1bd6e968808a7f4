----------------------------- MODULE TraceLoose -----------------------------
(* Recorded pairs of instructions that are never part of a module: their      *)
(* fields, texts, comparisons and copies.                                     *)
EXTENDS Texts, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE s
Bit(x) == IF x THEN 1 ELSE 0
Good(c) ==
  /\ c.k = "ok"
  /\ c.a[1][1] \in LooseOps /\ c.b[1] = c.a[1]
  /\ c.pa = c.a /\ c.pb = c.b                       \* the fields are what they were made of
  /\ c.ta = LineOf(c.a) /\ c.tb = LineOf(c.b)
  /\ c.eq = Bit(c.a = c.b) /\ c.ne = Bit(c.a # c.b) /\ c.sym = c.eq
  /\ c.refl = 1 /\ c.copy = 1
(* Different instructions of one kind differ in their text, too. *)
TextsTell(c) == c.a # c.b => LineOf(c.a) # LineOf(c.b)
Judge(c) == IF Good(c) THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, <<"C23">>, <<LineOf(c.a), LineOf(c.b), Bit(c.a = c.b)>>>>)
Init == s = 0
Next == /\ s < N /\ s' = s + 1
        /\ Judge(Trace[s + 1])
        /\ IF s + 1 = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
Spec == Init /\ [][Next]_s
TraceInv == s > 0 => TextsTell(Trace[s])
=============================================================================
