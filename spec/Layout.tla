------------------------------- MODULE Layout -------------------------------
(* From a list of instructions to a logical module: a machine that consumes   *)
(* one instruction per step.  Instructions are in the form of Decode.         *)
EXTENDS Naturals, Sequences, TLC, SequencesExt, Grammar

CONSTANT InstsOf(_)    \* the instructions of a run

VARIABLES lrun,    \* what is being validated
          at,      \* instructions consumed
          mode,    \* "top" between functions and before them, "params", "blocks", "code", "merged", "done"
          stage,   \* last section entered (1..9), 10 when declarations, 11 when definitions have begun
          secs,    \* the nine sections
          decls, defs,
          fun,     \* the function being read: <<OpFunction, parameters, blocks>>
          blk,     \* the block being read: <<label, code, merge>>
          lout     \* <<>>, <<"ok">> or the error

lvars == <<lrun, at, mode, stage, secs, decls, defs, fun, blk, lout>>

(* ---- classes of instructions ---- *)
Sections == <<"cap", "ext", "imp", "mem", "entry", "mode", "debug", "annot", "global">>
Class(i) ==
  LET c == SectionOf[i[1][1]] IN
  IF c # "var" THEN c ELSE IF i[4] = <<"Function">> THEN "code" ELSE "global"
Rank(c) == SelectInSeq(Sections, LAMBDA s : s = c)   \* 0: not a section of its own
MemRank == 4

EmptyFun == <<<<>>, <<>>, <<>>>>
EmptyBlk == <<<<>>, <<>>, <<>>>>
EmptySecs == [k \in 1..9 |-> <<>>]

LayoutInit(r) ==
  /\ lrun = r /\ at = 0 /\ mode = "top" /\ stage = 1 /\ secs = EmptySecs
  /\ decls = <<>> /\ defs = <<>> /\ fun = EmptyFun /\ blk = EmptyBlk /\ lout = <<>>
LayoutRestart(r) ==
  /\ lrun' = r /\ at' = 0 /\ mode' = "top" /\ stage' = 1 /\ secs' = EmptySecs
  /\ decls' = <<>> /\ defs' = <<>> /\ fun' = EmptyFun /\ blk' = EmptyBlk /\ lout' = <<>>

Total == Len(InstsOf(lrun))
Remaining == Total - at
Cur == InstsOf(lrun)[at + 1]
CurClass == IF Remaining = 0 THEN "none" ELSE Class(Cur)

Refuse(e) == mode' = "done" /\ lout' = e /\ UNCHANGED <<lrun, at, stage, secs, decls, defs, fun, blk>>
Consume(m) == mode' = m /\ at' = at + 1 /\ UNCHANGED <<lrun, lout>>
Slot == ToString(at)

(* ---- the sections before the functions ---- *)
SectionInstruction ==
  LET r == Rank(CurClass) IN
  /\ mode = "top" /\ r > 0 /\ r >= stage
  /\ stage < MemRank \/ stage > MemRank \/ r # MemRank    \* one memory model
  /\ (stage >= MemRank \/ r <= MemRank)                   \* which comes before what follows it
  /\ Consume("top")
  /\ stage' = r
  /\ secs' = [secs EXCEPT ![r] = Append(@, Cur)]
  /\ UNCHANGED <<decls, defs, fun, blk>>

FunctionStart ==
  /\ mode = "top" /\ stage >= MemRank /\ CurClass = "func" /\ Remaining >= 2
  /\ Consume("params")
  /\ stage' = IF stage < 10 THEN 10 ELSE stage
  /\ fun' = <<Cur, <<>>, <<>>>>
  /\ UNCHANGED <<secs, decls, defs, blk>>

TopRefused ==
  /\ mode = "top"
  /\ IF stage < MemRank THEN /\ ~(Rank(CurClass) \in stage..MemRank)
                             /\ Refuse(<<"MemoryModelMissing">>)
     ELSE /\ Remaining > 0
          /\ ~(CurClass = "func" /\ Remaining >= 2)
          /\ ~(Rank(CurClass) > MemRank /\ Rank(CurClass) >= stage)
          /\ Refuse(<<IF Remaining = 1 THEN "UnexpectedInstruction" ELSE "ExpectedOpFunction", Slot>>)

Accept == mode = "top" /\ stage >= MemRank /\ Remaining = 0 /\ Refuse(<<"ok">>)

(* ---- functions ---- *)
Parameter ==
  /\ mode = "params" /\ CurClass = "param"
  /\ Consume("params")
  /\ fun' = [fun EXCEPT ![2] = Append(@, Cur)]
  /\ UNCHANGED <<stage, secs, decls, defs, blk>>

Declaration ==
  /\ mode = "params" /\ CurClass = "end" /\ stage = 10
  /\ Consume("top")
  /\ decls' = Append(decls, <<fun[1], fun[2]>>)
  /\ fun' = EmptyFun
  /\ UNCHANGED <<stage, secs, defs, blk>>
LateDeclaration ==
  /\ mode = "params" /\ CurClass = "end" /\ stage = 11
  /\ Refuse(<<"UnexpectedInstruction", Slot>>)

Label ==
  /\ mode \in {"params", "blocks"} /\ CurClass = "label"
  /\ Consume("code")
  /\ stage' = 11
  /\ blk' = <<Cur, <<>>, <<>>>>
  /\ UNCHANGED <<secs, decls, defs, fun>>
NoBlock ==
  /\ mode = "params" /\ CurClass \notin {"param", "end", "label"}
  /\ Refuse(<<"ExpectedOpFunctionEnd", Slot>>)

Code ==
  /\ mode = "code" /\ CurClass = "code"
  /\ Consume("code")
  /\ blk' = [blk EXCEPT ![2] = Append(@, Cur)]
  /\ UNCHANGED <<stage, secs, decls, defs, fun>>
MergeInstruction ==
  /\ mode = "code" /\ CurClass = "merge"
  /\ Consume("merged")
  /\ blk' = [blk EXCEPT ![3] = <<Cur>>]
  /\ UNCHANGED <<stage, secs, decls, defs, fun>>
Terminator ==
  /\ mode \in {"code", "merged"} /\ CurClass = "branch"
  /\ Consume("blocks")
  /\ fun' = [fun EXCEPT ![3] = Append(@, Append(blk, Cur))]
  /\ blk' = EmptyBlk
  /\ UNCHANGED <<stage, secs, decls, defs>>
NoTerminator ==
  /\ \/ mode = "code" /\ CurClass \notin {"code", "merge", "branch"}
     \/ mode = "merged" /\ CurClass # "branch"
  /\ Refuse(<<"ExpectedBranch", Slot>>)

Definition ==
  /\ mode = "blocks" /\ CurClass = "end"
  /\ Consume("top")
  /\ defs' = Append(defs, fun)
  /\ fun' = EmptyFun
  /\ UNCHANGED <<stage, secs, decls, blk>>
NoEnd ==
  /\ mode = "blocks" /\ CurClass \notin {"label", "end"}
  /\ Refuse(<<"ExpectedOpFunctionEnd", Slot>>)

LayoutNext ==
  \/ SectionInstruction \/ FunctionStart \/ TopRefused \/ Accept
  \/ Parameter \/ Declaration \/ LateDeclaration \/ Label \/ NoBlock
  \/ Code \/ MergeInstruction \/ Terminator \/ NoTerminator \/ Definition \/ NoEnd

(* ---- the instructions of a module, read back in order (C11) ---- *)
FlatBlock(b) == <<b[1]>> \o b[2] \o b[3] \o <<b[4]>>
End == <<<<"OpFunctionEnd">>>>
FlatDef(f) == <<f[1]>> \o f[2] \o FlattenSeq([k \in 1..Len(f[3]) |-> FlatBlock(f[3][k])]) \o <<End>>
FlatDecl(f) == <<f[1]>> \o f[2] \o <<End>>
Flat(ss, dc, df) ==
  FlattenSeq(ss) \o FlattenSeq([k \in 1..Len(dc) |-> FlatDecl(dc[k])]) \o FlattenSeq([k \in 1..Len(df) |-> FlatDef(df[k])])

(* ---- invariants ---- *)
LayoutTypeOK ==
  /\ mode \in {"top", "params", "blocks", "code", "merged", "done"}
  /\ at \in 0..Total /\ stage \in 1..11
  /\ (mode = "done") = (lout # <<>>)
(* At every step what has been consumed is exactly what is held, in order. *)
Pending ==
  IF fun[1] = <<>> THEN <<>>
  ELSE <<fun[1]>> \o fun[2] \o FlattenSeq([k \in 1..Len(fun[3]) |-> FlatBlock(fun[3][k])]) \o
       (IF blk[1] = <<>> THEN <<>> ELSE <<blk[1]>> \o blk[2] \o blk[3])
Lossless == Flat(secs, decls, defs) \o Pending = SubSeq(InstsOf(lrun), 1, at)
Complete == lout = <<"ok">> => at = Total /\ fun = EmptyFun /\ blk = EmptyBlk /\ Len(secs[MemRank]) = 1

(* ---- the language accepted, stated without the machine ---- *)
Classes(is) == [k \in 1..Len(is) |-> Class(is[k])]
BlockShape(cs) ==   \* a label, code, at most one merge, a terminator
  /\ Len(cs) >= 2 /\ cs[1] = "label" /\ cs[Len(cs)] = "branch"
  /\ \A k \in 2..(Len(cs) - 1) : cs[k] = "code" \/ (cs[k] = "merge" /\ k = Len(cs) - 1)
RECURSIVE BlocksShape(_)
BlocksShape(cs) ==
  cs = <<>> \/ \E k \in 2..Len(cs) : BlockShape(SubSeq(cs, 1, k)) /\ BlocksShape(SubSeq(cs, k + 1, Len(cs)))
FunctionShape(cs, withBlocks) ==
  /\ Len(cs) >= 2 /\ cs[1] = "func" /\ cs[Len(cs)] = "end"
  /\ \E p \in 1..(Len(cs) - 1) :
       /\ \A k \in 2..p : cs[k] = "param"
       /\ LET body == SubSeq(cs, p + 1, Len(cs) - 1) IN
          IF withBlocks THEN body # <<>> /\ BlocksShape(body) ELSE body = <<>>
RECURSIVE FunctionsShape(_, _)
FunctionsShape(cs, withBlocks) ==
  \/ cs = <<>>
  \/ \E k \in 2..Len(cs) : FunctionShape(SubSeq(cs, 1, k), withBlocks) /\ FunctionsShape(SubSeq(cs, k + 1, Len(cs)), withBlocks)
Legal(cs) ==
  \E k \in 0..Len(cs) :
    /\ \A j \in 1..k : Rank(cs[j]) > 0
    /\ \A i, j \in 1..k : i < j => Rank(cs[i]) <= Rank(cs[j])
    /\ Len(SelectSeq(SubSeq(cs, 1, k), LAMBDA c : c = "mem")) = 1
    /\ \E m \in k..Len(cs) :
         /\ FunctionsShape(SubSeq(cs, k + 1, m), FALSE)
         /\ FunctionsShape(SubSeq(cs, m + 1, Len(cs)), TRUE)
=============================================================================
