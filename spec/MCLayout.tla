------------------------------ MODULE MCLayout ------------------------------
(* All sequences of instruction classes up to a length: the machine is        *)
(* deterministic and total, accepts exactly the legal sequences, and points   *)
(* at the first instruction after which no continuation is legal.             *)
EXTENDS Layout
S == INSTANCE LayoutSize

CONSTANT MaxLen
Rep == [cap |-> <<<<"OpCapability">>, <<"Shader">>>>, ext |-> <<<<"OpExtension">>, <<"61">>>>,
        imp |-> <<<<"OpExtInstImport">>, <<"1">>, <<"61">>>>, mem |-> <<<<"OpMemoryModel">>, <<"Logical">>, <<"Simple">>>>,
        entry |-> <<<<"OpEntryPoint">>, <<"Vertex">>, <<"1">>, <<>>, <<>>>>,
        mode |-> <<<<"OpExecutionMode">>, <<"1">>, <<"Xfb">>>>, debug |-> <<<<"OpName">>, <<"1">>, <<>>>>,
        annot |-> <<<<"OpDecorate">>, <<"1">>, <<"Block">>>>, global |-> <<<<"OpTypeVoid">>, <<"1">>>>,
        func |-> <<<<"OpFunction">>, <<"1">>, <<"2">>, <<>>, <<"3">>>>, param |-> <<<<"OpFunctionParameter">>, <<"1">>, <<"2">>>>,
        end |-> <<<<"OpFunctionEnd">>>>, label |-> <<<<"OpLabel">>, <<"1">>>>,
        code |-> <<<<"OpNop">>>>, merge |-> <<<<"OpSelectionMerge">>, <<"1">>, <<>>>>, branch |-> <<<<"OpReturn">>>>]
AllClasses == DOMAIN Rep
MCInsts(r) == [k \in 1..Len(r) |-> Rep[r[k]]]

Seqs == UNION {[1..n -> AllClasses] : n \in 0..MaxLen}
(* Longer sequences from a reduced alphabet, to reach whole functions. *)
FunClasses == {"func", "param", "end", "label", "code", "merge", "branch"}
FunSeqs == {<<"mem">> \o s : s \in UNION {[1..n -> FunClasses] : n \in 0..(MaxLen + 2)}}

Init == \E r \in Seqs \cup FunSeqs : LayoutInit(r)
Next == LayoutNext
Spec == Init /\ [][Next]_lvars

Deterministic ==
  \* exactly one kind of step is possible until done
  LET acts == <<ENABLED SectionInstruction, ENABLED FunctionStart, ENABLED TopRefused, ENABLED Accept, ENABLED Parameter,
                ENABLED Declaration, ENABLED LateDeclaration, ENABLED Label, ENABLED NoBlock, ENABLED Code, ENABLED MergeInstruction,
                ENABLED Terminator, ENABLED NoTerminator, ENABLED Definition, ENABLED NoEnd>>
  IN Len(SelectSeq(acts, LAMBDA b : b)) = IF mode = "done" THEN 0 ELSE 1
ExactlyLegal == mode = "done" => ((lout = <<"ok">>) <=> Legal(lrun))

(* What has been consumed can still become legal ... *)
Completion ==
  CASE mode = "top" -> IF stage < MemRank THEN <<"mem">> ELSE <<>>
    [] mode = "params" -> IF stage = 10 THEN <<"end">> ELSE <<"label", "branch", "end">>
    [] mode \in {"code", "merged"} -> <<"branch", "end">>
    [] mode = "blocks" -> <<"end">>
    [] OTHER -> <<>>
Viable == mode # "done" => Legal(SubSeq(lrun, 1, at) \o Completion)
(* ... and the instruction an error points at is the first after which it cannot. *)
Tails == {<<>>, <<"mem">>, <<"end">>, <<"branch", "end">>, <<"label", "branch", "end">>, <<"code", "branch", "end">>,
          <<"merge", "branch", "end">>, <<"func", "end">>, <<"mem", "func", "label", "branch", "end">>}
Hopeless ==
  (mode = "done" /\ lout # <<"ok">> /\ at < Total /\ ~(lrun[at + 1] = "func" /\ Remaining = 1 /\ stage >= MemRank))
    => \A s \in Tails : ~Legal(SubSeq(lrun, 1, at + 1) \o s)
(* Forgetting the instructions: LayoutSize follows step by step. *)
AllBlocks == FlattenSeq([k \in 1..Len(defs) |-> defs[k][3]]) \o fun[3]
Count(p(_)) == LET bs == AllBlocks IN FoldLeft(LAMBDA n, b : n + p(b), 0, bs)
Sizes ==
  LET one(b) == 1  code(b) == Len(b[2])  mrg(b) == Len(b[3])
      dp == FoldLeft(LAMBDA n, f : n + Len(f[2]), 0, decls \o defs) + Len(fun[2])
  IN [k \in 1..15 |->
       CASE k <= 9 -> Len(secs[k]) [] k = 10 -> Len(decls) [] k = 11 -> Len(defs) [] k = 12 -> dp
         [] k = 13 -> Count(one) [] k = 14 -> Count(code) + Len(blk[2]) [] OTHER -> Count(mrg) + Len(blk[3])]
Abs == [mode |-> mode, stage |-> stage, sz |-> Sizes, at |-> at, err |-> lout]
Follows == [][S!CStep(Abs, CurClass, Remaining) = Abs']_lvars
(* Taking repetitions at once gives the same as one by one. *)
Accelerated ==
  \A u \in {<<"cap">>, <<"mem">>, <<"global">>, <<"func", "end">>, <<"func", "label", "branch", "end">>, <<"param">>, <<"label", "branch">>, <<"code">>} :
    \A pre \in {<<>>, <<"mem">>, <<"mem", "func">>, <<"mem", "func", "label">>} : \A post \in {<<>>, <<"end">>, <<"branch", "end">>, <<"mem">>, <<"func">>} : \A n \in 0..7 :
      S!Outcome(<<[c |-> pre, n |-> 1], [c |-> u, n |-> n], [c |-> post, n |-> 1]>>)
        = S!Outcome(<<[c |-> pre, n |-> 1]>> \o [k \in 1..n |-> [c |-> u, n |-> 1]] \o <<[c |-> post, n |-> 1]>>)
ASSUME Accelerated
=============================================================================
