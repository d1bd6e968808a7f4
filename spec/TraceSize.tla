----------------------------- MODULE TraceSize -----------------------------
(* Recorded validations of large modules: the outcome, the position of an     *)
(* error, the sizes of all parts, and the cost.                               *)
EXTENDS LayoutSize, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE s
(* Memory in KiB and time in ms: far above what a linear validation needs, far below a quadratic one. *)
Cheap(c) == c.mem <= 65536 + Amount(c.ps) * 4 /\ c.ms <= 1500 + Amount(c.ps) \div 200
Blame(c) ==
  LET x == Outcome(c.ps) IN
  IF c.k \notin {"ok", "err"} THEN {"C13"}
  ELSE (IF (IF x.err = <<"ok">> THEN c.k = "ok" ELSE c.k = "err" /\ c.e = x.err) THEN {} ELSE {"C10"})    \* accepted or not, and where
       \cup (IF x.err = <<"ok">> THEN (IF c.k = "ok" /\ c.sz = [k \in 1..15 |-> ToString(x.sz[k])] THEN {} ELSE {"C13"})
        ELSE IF c.k = "err" /\ c.e = x.err THEN {} ELSE {"C13"})
       \cup (IF x.err = <<"ok">> /\ c.k = "ok" /\ c.flat # 1 THEN {"C11"} ELSE {})
       \cup (IF x.err = <<"ok">> /\ c.k = "ok" /\ \E k \in 10..15 : c.sz[k] # ToString(x.sz[k]) THEN {"C12"} ELSE {})
       \cup (IF x.sz[10] + x.sz[11] + x.sz[12] + x.sz[13] > 0 /\ (IF x.err = <<"ok">> THEN c.k # "ok" ELSE c.k # "err" \/ c.e # x.err) THEN {"C12"} ELSE {})
       \cup (IF Cheap(c) THEN {} ELSE {"C13"})
Judge(c) ==
  LET b == Blame(c) IN
  IF b = {} THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, SetToSeq(b), <<Outcome(c.ps).err, Outcome(c.ps).sz>>>>)
Init == s = 0
Next == /\ s < N /\ s' = s + 1
        /\ Judge(Trace[s + 1])
        /\ IF s + 1 = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
Spec == Init /\ [][Next]_s
=============================================================================
