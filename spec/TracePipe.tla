----------------------------- MODULE TracePipe -----------------------------
(* Recorded runs of the whole pipeline on well-formed modules.                *)
EXTENDS Pipeline, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TrInput(r) == Trace[r].b
TrSets(r) == Trace[r].s
TrInsts(r) == Trace[r].i
TrPrograms(r) == [k \in 1..Len(Trace[r].asts) |-> Nested(Trace[r].asts[k])]

Same(c) ==
  /\ c.o.k = "ok"
  /\ c.o.h = hdr /\ c.o.i = insts
  /\ c.o.secs = secs /\ c.o.decls = decls /\ c.o.defs = defs
  /\ Len(c.o.cf) = Len(chains)
  /\ \A k \in 1..Len(chains) : c.o.cf[k].k = "ok" /\ Norm(Nested(c.o.cf[k].c)) = chains[k]
Judge(c) ==
  IF step # "finished" THEN PrintT(<<"MISMATCH", c.n, <<"HARNESS">>, <<step, out, lout>>>>)
  ELSE IF Same(c) THEN TRUE
  ELSE PrintT(<<"MISMATCH", c.n, <<"C22">>, <<"ok", hdr, secs, decls, defs, chains>>>>)

TraceInit == PipeInit(1)
TraceNext ==
  \/ run <= N /\ PipeNext
  \/ /\ run <= N
     /\ step \in {"finished", "refused"}
     /\ Judge(Trace[run])
     /\ IF run = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
     /\ PipeRestart(run + 1)
TraceSpec == TraceInit /\ [][TraceNext]_pipevars
(* What is delivered at the end is what was encoded. *)
TraceInv == run <= N => /\ step = "read" => ReaderTypeOK /\ AcceptedWhole
                        /\ step = "validate" => LayoutTypeOK /\ Complete
                        /\ step = "finished" => Flat(secs, decls, defs) = InstsOf(run)
=============================================================================
