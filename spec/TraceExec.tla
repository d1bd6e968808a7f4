----------------------------- MODULE TraceExec -----------------------------
(* For every recorded chain, the function and the chain are run side by side  *)
(* with the same branch outcomes; all reachable pairs of places are explored. *)
EXTENDS Exec, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TrBlocks(r) == Trace[r].blocks
OkRun(r) == Trace[r].o.k = "ok"
Chains == [r \in 1..N |-> IF OkRun(r) THEN Norm(Nested(Trace[r].o.c)) ELSE <<>>]

VARIABLES xrun, fpc, kpc, fault
xvars == <<xrun, fpc, kpc, fault>>
Report(r, what) == PrintT(<<"MISMATCH", Trace[r].n, <<"C14">>, what>>)

Idle == <<"", <<>>, <<>>>>
Begin(r) ==
  /\ xrun' = r /\ fault' = FALSE
  /\ fpc' = FunStart(TrBlocks(r))
  /\ kpc' = ChainStart(Chains[r])
Fun(r) == TrBlocks(r)
XInit == xrun = 0 /\ fpc = "" /\ kpc = Idle /\ fault = FALSE
(* One behaviour per case, chosen first. *)
Choose ==
  /\ xrun = 0
  /\ \E r \in {r \in 1..N : OkRun(r)} :
       IF TrBlocks(r) # <<>> /\ Carries(TrBlocks(r), Chains[r]) THEN Begin(r)
       ELSE /\ Report(r, <<"hints, weights or header", Chains[r]>>)
            /\ xrun' = r /\ fault' = TRUE /\ UNCHANGED <<fpc, kpc>>
InStep == fpc = kpc[1]
Differ ==
  /\ xrun > 0 /\ ~fault /\ ~InStep
  /\ Report(xrun, <<"function at", fpc, "chain at", kpc[1]>>)
  /\ fault' = TRUE /\ UNCHANGED <<xrun, fpc, kpc>>
Run ==
  /\ xrun > 0 /\ ~fault /\ InStep /\ fpc # "" /\ fpc \in Labels(Fun(xrun))
  /\ \E outcome \in BOOLEAN :
       /\ fpc' = FunNext(Fun(xrun), fpc, outcome)
       /\ kpc' = ChainNext(kpc, outcome)
  /\ UNCHANGED <<xrun, fault>>
XNext == Choose \/ Differ \/ Run
XSpec == XInit /\ [][XNext]_xvars
(* Reported once, so that the driver knows the whole trace was looked at. *)
Done == PrintT(<<"DONE", N>>)
ASSUME Done
=============================================================================
