---------------------------- MODULE TraceStruct ----------------------------
(* Each recorded call of find_control_flow on the blocks of a structured      *)
(* program has to give exactly that program back.                             *)
EXTENDS Structured, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE s
Blame(c) ==
  LET p == Nested(c.p) IN
  IF ~(WellFormed(p) /\ Encodes(c.blocks, p)) THEN {"HARNESS"}
  ELSE IF c.o.k # "ok" THEN {"C15"}
  ELSE LET o == Recorded(c.o.c) IN IF Norm(<<o>>) = ChainOf(p) /\ FlatForm(o) THEN {} ELSE {"C15"}
Judge(c) ==
  LET b == Blame(c) IN
  IF b = {} THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, SetToSeq(b), IF b = {"HARNESS"} THEN <<"not the program">> ELSE <<"ok", ChainOf(Nested(c.p))>>>>)
Init == s = 0
Next == /\ s < N /\ s' = s + 1
        /\ Judge(Trace[s + 1])
        /\ IF s + 1 = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
Spec == Init /\ [][Next]_s
=============================================================================
