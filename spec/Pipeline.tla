------------------------------ MODULE Pipeline ------------------------------
(* The whole way: bytes are read by the reader machine, the instructions it   *)
(* delivers are validated by the layout machine, and for each function        *)
(* definition the layout machine delivers the chain is recovered.  Each stage *)
(* takes over exactly what the one before delivered.                          *)
EXTENDS Reader, Layout, Structured

CONSTANTS ProgramsOf(_)     \* the structured programs the definitions were written from
VARIABLES step,    \* "read" "validate" "recover" "finished" "refused"
          chains   \* one per definition
pipevars == <<rvars, lvars, step, chains>>

PipeInit(r) == ReaderInit(r) /\ LayoutInit(r) /\ step = "read" /\ chains = <<>>
PipeRestart(r) == ReaderRestart(r) /\ LayoutRestart(r) /\ step' = "read" /\ chains' = <<>>

Reading == step = "read" /\ phase # "done" /\ ReaderNext /\ UNCHANGED <<lvars, step, chains>>
(* What was read is what was written (InstsOf): the handover to validation. *)
HandOver ==
  /\ step = "read" /\ phase = "done"
  /\ step' = IF out = <<"ok">> /\ insts = InstsOf(run) THEN "validate" ELSE "refused"
  /\ UNCHANGED <<rvars, lvars, chains>>
Validating == step = "validate" /\ mode # "done" /\ LayoutNext /\ UNCHANGED <<rvars, step, chains>>
Validated ==
  /\ step = "validate" /\ mode = "done"
  /\ step' = IF lout = <<"ok">> /\ Len(defs) = Len(ProgramsOf(run)) THEN "recover" ELSE "refused"
  /\ UNCHANGED <<rvars, lvars, chains>>
(* A definition written from a structured program has that program's chain. *)
Recovering ==
  /\ step = "recover" /\ Len(chains) < Len(defs)
  /\ LET k == Len(chains) + 1
         p == ProgramsOf(run)[k] IN
     IF WellFormed(p) /\ Encodes(defs[k][3], p)
     THEN chains' = Append(chains, ChainOf(p)) /\ UNCHANGED step
     ELSE step' = "refused" /\ UNCHANGED chains
  /\ UNCHANGED <<rvars, lvars>>
Finished ==
  /\ step = "recover" /\ Len(chains) = Len(defs)
  /\ step' = "finished" /\ UNCHANGED <<rvars, lvars, chains>>

PipeNext == Reading \/ HandOver \/ Validating \/ Validated \/ Recovering \/ Finished
=============================================================================
