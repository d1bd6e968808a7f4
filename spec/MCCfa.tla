------------------------------- MODULE MCCfa -------------------------------
(* All functions with a few blocks, branching and merging in any way, to any  *)
(* block or to one that does not exist.  The search ends, with a chain only   *)
(* when the chain executes like the function.                                 *)
EXTENDS ControlFlow, Exec

CONSTANTS Count,   \* blocks
          Absent   \* ids that no block has
Ids == {ToString(k) : k \in 1..(Count + Absent)}
Merges == {<<>>} \cup {<<<<<<"OpSelectionMerge">>, <<m>>, <<"Flatten">>>>>> : m \in Ids} \cup {<<<<<<"OpLoopMerge">>, <<m>>, <<m>>, <<"Unroll">>>>>> : m \in Ids}
Branches == {<<<<"OpReturn">>>>} \cup {<<<<"OpBranch">>, <<t>>>> : t \in Ids}
            \cup {<<<<"OpBranchConditional">>, <<"9">>, <<t>>, <<f>>, <<"3", "4">>>> : t \in Ids, f \in Ids}
Bodies == Merges \X Branches
MkBlocks(r) == [k \in 1..Count |-> <<<<<<"OpLabel">>, <<ToString(k)>>>>, <<>>, r[k][1], r[k][2]>>]

Init == \E r \in [1..Count -> Bodies] : SearchInit(r)
Spec == Init /\ [][SearchNext]_cvars /\ WF_cvars(SearchNext)
Deterministic == Cardinality({k \in 1..16 :
   CASE k = 1 -> ENABLED Start [] k = 2 -> ENABLED Rejoin [] k = 3 -> ENABLED Missing [] k = 4 -> ENABLED Cycle [] k = 5 -> ENABLED Returns
     [] k = 6 -> ENABLED Straight [] k = 7 -> ENABLED LoopHead [] k = 8 -> ENABLED SelectionHead [] k = 9 -> ENABLED LoopExit
     [] k = 10 -> ENABLED Unexplained [] k = 11 -> ENABLED Then [] k = 12 -> ENABLED EndOfBody [] k = 13 -> ENABLED EndOfTrue
     [] k = 14 -> ENABLED EndOfFalse [] k = 15 -> ENABLED EndOfRound [] OTHER -> ENABLED Finish}) = IF cmode = "done" THEN 0 ELSE 1
Sound == cout = <<"ok">> => Equivalent(MkBlocks(crun), ret[1]) /\ Carries(MkBlocks(crun), ret[1])
Terminates == <>(cmode = "done")
Inv == SearchTypeOK /\ Ends /\ Bounded /\ Sound /\ Deterministic
=============================================================================
