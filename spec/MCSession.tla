----------------------------- MODULE MCSession -----------------------------
(* All interleavings of three threads, with a library that answers by the     *)
(* call alone: every schedule ends, with the same answers.                    *)
EXTENDS Session, TLC
Calls == {1, 2, 3}
Plans == <<<<1, 2, 1>>, <<2, 3>>, <<3, 1>>>>
MCPlan(r, t) == Plans[t]
MCThreads(r) == 1..3
MCSays(r, t, k) == <<"answer", Plans[t][k]>>
MCInit == SInit(1, <<>>)
MCSpec == MCInit /\ [][SNext]_svars /\ WF_svars(SNext)
SameAnswers == \A c \in DOMAIN answers : answers[c] = <<"answer", c>>
NeverStuck == AllDone \/ ENABLED SNext
AllEnd == <>(AllDone /\ DOMAIN answers = Calls)
=============================================================================
