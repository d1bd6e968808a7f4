---------------------------- MODULE TraceOffer ----------------------------
(* A recorded reading of instructions of an extended set, of which each is a  *)
(* run of the machine of Operands: what the set saw at each step of each, and *)
(* how the reading ended.  An instruction that is refused ends the reading.   *)
EXTENDS Operands, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TrWords(p) == IF p[1] > N THEN <<>> ELSE Trace[p[1]].w[p[2]]
TrScript(p) == IF p[1] > N THEN <<>> ELSE Trace[p[1]].s[p[2]]
(* Whether the instruction was seen as it should be, with its number. *)
Seen(c, j) == Len(c.l) >= j /\ c.l[j] = <<c.num[j], taken>>
Ended(c, j) ==
  /\ Len(c.l) = j
  /\ c.k = IF oout = <<"ok">> THEN "ok" ELSE "err"
  /\ c.e = IF oout = <<"ok">> THEN <<>> ELSE oout
Good3(c, j) == Seen(c, j) /\ (oout # <<"ok">> \/ j = Len(c.w) => Ended(c, j))
Judge(c, j) == IF Good3(c, j) THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, <<"C25">>, j, oout, taken>>)
Go(p) == ORestart(p, TrWords(p))
TraceInit == OInit(<<1, 1>>)
TraceNext ==
  \/ orun[1] <= N /\ oout = <<>> /\ ONext
  \/ /\ orun[1] <= N /\ oout # <<>>
     /\ LET c == Trace[orun[1]]  j == orun[2] IN
        /\ Judge(c, j)
        /\ IF oout = <<"ok">> /\ j < Len(c.w) /\ Good3(c, j) THEN Go(<<orun[1], j + 1>>)
           ELSE /\ IF orun[1] = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
                /\ Go(<<orun[1] + 1, 1>>)
TraceSpec == TraceInit /\ [][TraceNext]_ovars
TraceInv == orun[1] <= N => Suffix /\ AllTaken
=============================================================================
