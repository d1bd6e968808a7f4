----------------------------- MODULE TraceWide -----------------------------
(* One instruction of any opcode with any word count, the operand words all   *)
(* the same: what it is taken for depends on the opcode alone.                *)
EXTENDS Decode, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE s
Rejected(c) ==       \* the error for an opcode that is not read; <<>> for one that is
  IF c.op \in DOMAIN Unsupported THEN <<"UnimplementedOp", Unsupported[c.op]>>
  ELSE IF c.op \notin DOMAIN Ops THEN <<"UnknownOp", ToString(c.op), ToString(c.wc)>>
  ELSE <<>>
Fine(c) ==
  IF Rejected(c) # <<>> THEN c.k = "err" /\ c.e = Rejected(c)
  ELSE \/ (c.k = "ok" /\ c.cnt = 1 /\ Len(c.got) = 1 /\ c.got[1] # <<>> /\ c.got[1][1] = <<Ops[c.op].name>>)
       \/ (c.k = "err" /\ c.e[1] \notin {"UnknownOp", "UnimplementedOp"})
Judge(c) ==
  IF Fine(c) THEN TRUE
  ELSE PrintT(<<"MISMATCH", c.n, <<"C06">>, IF Rejected(c) # <<>> THEN Rejected(c) ELSE <<Ops[c.op].name>>>>)
Init == s = 0
Next == /\ s < N /\ s' = s + 1
        /\ Judge(Trace[s + 1])
        /\ IF s + 1 = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
Spec == Init /\ [][Next]_s
=============================================================================
