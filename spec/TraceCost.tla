----------------------------- MODULE TraceCost -----------------------------
(* Reads of large inputs made of repeated pieces.  The same pieces, repeated  *)
(* less often, are checked with TraceReader: here the outcome must be the     *)
(* same, the number of instructions the sum, the cost in proportion, and the  *)
(* instructions at the places looked at those that are encoded there.         *)
EXTENDS Decode, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE s
RECURSIVE Sum(_)
Sum(ps) == IF ps = <<>> THEN 0 ELSE ps[1].n * ps[1].insts + Sum(Tail(ps))
(* KiB, ms and bytes. *)
Cheap(c) ==
  /\ c.mem <= 16384 + (c.len \div 1024) * 200
  /\ c.tmem <= 16384 + (c.len \div 1024) * 200
  /\ c.ms <= 1500 + c.len \div 1000
(* The instruction at place p (from 0): its words, with the number of the repetition where that is put. *)
Binds == "1" :> "G"
RECURSIVE Place(_, _)
Place(ps, p) ==
  LET q == ps[1]  t == q.n * q.insts IN
  IF p >= t THEN Place(Tail(ps), p - t)
  ELSE LET k == p \div q.insts  j == (p % q.insts) + 1
           mark == {q.v[j][i] : i \in 1..Len(q.v[j])}
           m == k + 1000
           ws == [i \in 1..Len(q.w[j]) |-> IF i \in mark THEN <<m \div 65536, m % 65536>> ELSE q.w[j][i]] IN
       Instruction(ws[1][2], Tail(ws), <<"G", "A">>, IF ws[1][2] = 11 THEN <<>> ELSE Binds).i
Amiss(c) ==      \* what is wrong with the instructions looked at
  IF c.k # "ok" \/ c.cnt # Sum(c.ps) THEN {}
  ELSE LET bad == {i \in 1..Len(c.at) : c.got[i] # Place(c.ps, c.at[i])} IN
       IF bad = {} THEN {}
       ELSE IF \A i \in bad : c.got[i] # <<>> /\ c.got[i][1] = Place(c.ps, c.at[i])[1] THEN {"C05"}    \* an operand only
       ELSE {"C04"}
Listed(c) ==
  IF c.k # c.small.k \/ (c.k = "ok" /\ c.cnt # Sum(c.ps)) \/ (c.k = "err" /\ c.e[1] # c.small.e[1]) THEN {"C04"} ELSE {}
Cost(c) ==
  IF c.k # c.small.k \/ ~Cheap(c) THEN {"C01"}
  ELSE IF c.k = "ok" THEN (IF c.cnt = Sum(c.ps) THEN {} ELSE {"C01"})
  ELSE IF c.e[1] = c.small.e[1] THEN {} ELSE {"C01"}
Blame(c) == Cost(c) \cup Listed(c) \cup Amiss(c)
Judge(c) ==
  LET b == Blame(c) IN
  IF b = {} THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, SetToSeq(b), <<c.small.k, c.small.e, Sum(c.ps)>>>>)
Init == s = 0
Next == /\ s < N /\ s' = s + 1
        /\ Judge(Trace[s + 1])
        /\ IF s + 1 = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
Spec == Init /\ [][Next]_s
=============================================================================
