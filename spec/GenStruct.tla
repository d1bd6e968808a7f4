----------------------------- MODULE GenStruct -----------------------------
(* Writes all structured programs to a size, with their blocks, as test cases. *)
EXTENDS MCStruct, Json, IOUtils
ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(Cases) |-> [p |-> Cases[k], blocks |-> MCBlocks[k]]])
GInit == SearchInit(1)
GSpec == GInit /\ [][FALSE]_cvars
=============================================================================
