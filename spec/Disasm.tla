------------------------------- MODULE Disasm -------------------------------
(* The listing of a module, written line by line: the header, then the        *)
(* instructions in order.                                                     *)
EXTENDS Texts

CONSTANTS ModuleHeader(_), ModuleInsts(_)
VARIABLES drun,   \* the module
          dline   \* the lines written
dvars == <<drun, dline>>
DInit(r) == drun = r /\ dline = <<>>
DRestart(r) == drun' = r /\ dline' = <<>>
WriteHeader ==
  /\ dline = <<>>
  /\ dline' = HeaderLines(ModuleHeader(drun)) /\ UNCHANGED drun
Written == Len(dline) - 5
WriteInst ==
  /\ dline # <<>> /\ Written < Len(ModuleInsts(drun))
  /\ dline' = Append(dline, LineOf(ModuleInsts(drun)[Written + 1])) /\ UNCHANGED drun
DNext == WriteHeader \/ WriteInst
DDone == dline # <<>> /\ Written = Len(ModuleInsts(drun))

(* Every line names its instruction and has room for the result. *)
LinesOK ==
  \A k \in 6..Len(dline) : LET i == ModuleInsts(drun)[k - 5] IN SubSeq(dline[k], 16, 15 + Len(i[1][1])) = i[1][1]
=============================================================================
