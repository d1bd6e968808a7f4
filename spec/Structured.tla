---------------------------- MODULE Structured ----------------------------
(* Structured programs: what they are, the blocks they are written as, and    *)
(* the chain that describes them.                                             *)
(*                                                                            *)
(* A program is a sequence of statements [t, id, a, b, h, w]:                 *)
(*   "atom"  a block that goes on                                             *)
(*   "sel"   a selection with arms a and b, rejoining at what follows         *)
(*   "loop"  a loop with header id and body a                                 *)
(*   "brk" / "cont"  a condition in a loop body whose false side leaves the   *)
(*           loop / starts the next round; the rest of the sequence is the    *)
(*           true side.                                                       *)
(* The last statement of a function is an atom, which returns.                *)
EXTENDS Blocks

(* A condition that leaves the round is allowed where the sequence runs into the header of the innermost loop. *)
RECURSIVE Wf(_, _, _)
Wf(p, exit, loop) ==
  p = <<>> \/
  LET s == p[1]
      after == IF Len(p) = 1 THEN exit ELSE p[2].id IN
  /\ CASE s.t = "atom" -> TRUE
       [] s.t = "sel" -> Wf(s.a, after, loop) /\ Wf(s.b, after, loop)
       [] s.t = "loop" -> Wf(s.a, s.id, s.id)
       [] OTHER -> loop # "" /\ exit = loop
  /\ Wf(Tail(p), exit, loop)
RECURSIVE Ids(_)
Ids(p) == FlattenSeq([k \in 1..Len(p) |-> <<p[k].id>> \o Ids(p[k].a) \o Ids(p[k].b)])
WellFormed(p) ==
  /\ p # <<>> /\ p[Len(p)].t = "atom"
  /\ Cardinality(ToSet(Ids(p))) = Len(Ids(p))
  /\ Wf(p, "", "")

(* ---- as blocks: <<label, merge, branch>> ---- *)
Entry(p, exit) == IF p = <<>> THEN exit ELSE p[1].id
RECURSIVE Lower(_, _, _, _)
Lower(p, exit, head, merge) ==
  IF p = <<>> THEN <<>>
  ELSE LET s == p[1]
           after == Entry(Tail(p), exit)
           mine ==
             CASE s.t = "atom" -> <<<<s.id, <<"none">>, IF after = "" THEN <<"return">> ELSE <<"jump", after>>>>>>
               [] s.t = "sel" -> <<<<s.id, <<"sel", after, s.h>>, <<"cond", Entry(s.a, after), Entry(s.b, after), s.w>>>>>>
                                 \o Lower(s.a, after, head, merge) \o Lower(s.b, after, head, merge)
               [] s.t = "loop" -> <<<<s.id, <<"loop", after, s.h>>, <<"jump", Entry(s.a, s.id)>>>>>> \o Lower(s.a, s.id, s.id, after)
               [] OTHER -> <<<<s.id, <<"none">>, <<"cond", after, IF s.t = "brk" THEN merge ELSE head, s.w>>>>>>
       IN mine \o Lower(Tail(p), exit, head, merge)
FunctionBlocks(p) == Lower(p, "", "", "")
Shape(b) == <<LabelOf(b), Merge(b), Branch(b)>>
(* The blocks are those of the program, the first one first. *)
Encodes(bs, p) ==
  LET f == FunctionBlocks(p) IN
  /\ Len(bs) = Len(f) /\ Shape(bs[1]) = f[1]
  /\ {Shape(bs[k]) : k \in 1..Len(bs)} = ToSet(f)

(* ---- as a chain ---- *)
RECURSIVE ChainOf(_)
ChainOf(p) ==
  IF p = <<>> THEN <<>>
  ELSE LET s == p[1] IN
       CASE s.t = "atom" -> <<Atom(s.id)>> \o ChainOf(Tail(p))
         [] s.t = "sel" -> <<Node("sel", s.id, ChainOf(s.a), ChainOf(s.b), s.h, s.w)>> \o ChainOf(Tail(p))
         [] s.t = "loop" -> <<Node("loop", s.id, ChainOf(s.a), <<>>, s.h, <<>>)>> \o ChainOf(Tail(p))
         [] OTHER -> <<Node("sel", s.id, ChainOf(Tail(p)), <<IF s.t = "brk" THEN Break ELSE Continue>>, <<>>, s.w)>>

(* The blocks as instructions, in a given order of listing. *)
AsBlock(x) ==
  <<<<<<"OpLabel">>, <<x[1]>>>>, <<>>,
    CASE x[2][1] = "none" -> <<>>
      [] x[2][1] = "sel" -> <<<<<<"OpSelectionMerge">>, <<x[2][2]>>, x[2][3]>>>>
      [] OTHER -> <<<<<<"OpLoopMerge">>, <<x[2][2]>>, <<x[1]>>, x[2][3]>>>>,
    CASE x[3][1] = "return" -> <<<<"OpReturn">>>>
      [] x[3][1] = "jump" -> <<<<"OpBranch">>, <<x[3][2]>>>>
      [] OTHER -> <<<<"OpBranchConditional">>, <<"900">>, <<x[3][2]>>, <<x[3][3]>>, x[3][4]>>>>
AsBlocks(f) == [k \in 1..Len(f) |-> AsBlock(f[k])]
=============================================================================
