---------------------------- MODULE ControlFlow ----------------------------
(* Recovering structured control flow from the blocks of a function: a search *)
(* with an explicit stack.                                                    *)
EXTENDS Blocks

(* ==== the search ==== *)
(* It follows the function from its first block.  The context of a place is   *)
(* the set of blocks at which an enclosing construct waits to be rejoined,    *)
(* the innermost loop and what has been passed on the way.                    *)
CONSTANT BlocksOf(_)

VARIABLES crun,    \* the function
          cmode,   \* "look" at block cur in ctx, "back" with ret, "done"
          cur, ctx,
          stack,   \* what to do with the result: frames, innermost last
          ret,     \* <<chain, block to continue at>>; "" after a return
          cout     \* <<>>, <<"ok">> or the error; ret has the chain
cvars == <<crun, cmode, cur, ctx, stack, ret, cout>>

NoCtx == [joins |-> {}, loop |-> <<>>, seen |-> {}]
SearchInit(r) ==
  /\ crun = r /\ cmode = "start" /\ cur = "" /\ ctx = NoCtx /\ stack = <<>> /\ ret = <<>> /\ cout = <<>>
SearchRestart(r) ==
  /\ crun' = r /\ cmode' = "start" /\ cur' = "" /\ ctx' = NoCtx /\ stack' = <<>> /\ ret' = <<>> /\ cout' = <<>>

Fail(e) == cmode' = "done" /\ cout' = e /\ ret' = <<>> /\ UNCHANGED <<crun, cur, ctx, stack>>
Look(id, c, s) == cmode' = "look" /\ cur' = id /\ ctx' = c /\ stack' = s /\ ret' = <<>> /\ UNCHANGED <<crun, cout>>
Back(chain, next, s) == cmode' = "back" /\ ret' = <<chain, next>> /\ stack' = s /\ UNCHANGED <<crun, cur, ctx, cout>>

Bs == BlocksOf(crun)
Start ==
  /\ cmode = "start"
  /\ LET r == FirstRepeat(Bs) IN
     IF r # 0 THEN Fail(<<"DuplicateBlockId", LabelOf(Bs[r])>>)
     ELSE IF Bs = <<>> THEN Fail(<<"NoBlocks">>)
     ELSE Look(LabelOf(Bs[1]), NoCtx, <<>>)

(* An enclosing construct continues here. *)
Rejoin == cmode = "look" /\ cur \in ctx.joins /\ Back(<<>>, cur, stack)

Fresh == cmode = "look" /\ cur \notin ctx.joins
Missing == Fresh /\ cur \notin Labels(Bs) /\ Fail(<<"UnknownBlockId", cur>>)
Known == Fresh /\ cur \in Labels(Bs)
Cycle == Known /\ <<cur, ctx.joins>> \in ctx.seen /\ Fail(<<"CouldNotPredictConverge", cur>>)
New == Known /\ <<cur, ctx.joins>> \notin ctx.seen
Blk == BlockNamed(Bs, cur)
Here == [ctx EXCEPT !.seen = @ \cup {<<cur, ctx.joins>>}]
Frame(f, c, node, merge) == [f |-> f, ctx |-> c, node |-> node, merge |-> merge]

Returns == New /\ Branch(Blk)[1] = "return" /\ Back(<<Atom(cur)>>, "", stack)

Straight ==
  /\ New /\ Branch(Blk)[1] = "jump" /\ Merge(Blk)[1] = "none"
  /\ Look(Branch(Blk)[2], Here, Append(stack, Frame("then", Here, Atom(cur), "")))

LoopHead ==
  /\ New /\ Branch(Blk)[1] = "jump" /\ Merge(Blk)[1] = "loop"
  /\ LET m == Merge(Blk)[2]  n == Node("loop", cur, <<>>, <<>>, Merge(Blk)[3], <<>>) IN
     Look(Branch(Blk)[2], [Here EXCEPT !.joins = @ \cup {cur}, !.loop = <<cur, m>>], Append(stack, Frame("body", Here, n, m)))

SelectionHead ==
  /\ New /\ Branch(Blk)[1] = "cond" /\ Merge(Blk)[1] = "sel"
  /\ LET m == Merge(Blk)[2]  n == Node("sel", cur, <<>>, <<>>, Merge(Blk)[3], Branch(Blk)[4]) IN
     Look(Branch(Blk)[2], [Here EXCEPT !.joins = @ \cup {m}], Append(stack, Frame("true", Here, n, m)))

(* In a loop, a condition whose false side leaves the round. *)
LeavesLoop == ctx.loop # <<>> /\ Branch(Blk)[3] \in ToSet(ctx.loop)
LoopExit ==
  /\ New /\ Branch(Blk)[1] = "cond" /\ Merge(Blk)[1] = "none" /\ LeavesLoop
  /\ LET out == IF Branch(Blk)[3] = ctx.loop[2] THEN Break ELSE Continue
         n == Node("sel", cur, <<>>, <<out>>, <<>>, Branch(Blk)[4]) IN
     Look(Branch(Blk)[2], Here, Append(stack, Frame("exit", Here, n, ctx.loop[1])))

Unexplained ==
  /\ New
  /\ \/ Branch(Blk)[1] = "jump" /\ Merge(Blk)[1] = "sel"
     \/ Branch(Blk)[1] = "cond" /\ Merge(Blk)[1] = "loop"
     \/ Branch(Blk)[1] = "cond" /\ Merge(Blk)[1] = "none" /\ ~LeavesLoop
  /\ Fail(<<"CouldNotPredictConverge", cur>>)

(* ---- back in the enclosing construct ---- *)
Top == stack[Len(stack)]
Below == Front(stack)
Backing(f) == cmode = "back" /\ stack # <<>> /\ Top.f = f
Then ==
  /\ Backing("then") /\ Back(<<Top.node>> \o ret[1], ret[2], Below)
EndOfBody ==
  /\ Backing("body")
  /\ IF ret[2] = Top.node.id
     THEN Look(Top.merge, Top.ctx, Append(Below, Frame("then", Top.ctx, [Top.node EXCEPT !.a = ret[1]], "")))
     ELSE Fail(<<"InvalidConvergePrediction", "Loop", Top.node.id>>)
EndOfTrue ==
  /\ Backing("true")
  /\ Look(Branch(BlockNamed(Bs, Top.node.id))[3], [Top.ctx EXCEPT !.joins = @ \cup {Top.merge}],
          Append(Below, Frame(IF ret[2] = Top.merge THEN "false" ELSE "lost", Top.ctx, [Top.node EXCEPT !.a = ret[1]], Top.merge)))
EndOfFalse ==
  /\ Backing("false") \/ Backing("lost")
  /\ IF ret[2] = Top.merge /\ Top.f = "false"
     THEN Look(Top.merge, Top.ctx, Append(Below, Frame("then", Top.ctx, [Top.node EXCEPT !.b = ret[1]], "")))
     ELSE Fail(<<"InvalidConvergePrediction", "Selection", Top.node.id>>)
EndOfRound ==
  /\ Backing("exit")
  /\ IF ret[2] = Top.merge THEN Back(<<[Top.node EXCEPT !.a = ret[1]]>>, ret[2], Below)
     ELSE Fail(<<"InvalidConvergePrediction", "Loop", Top.node.id>>)
Finish ==
  /\ cmode = "back" /\ stack = <<>>
  /\ cmode' = "done" /\ cout' = <<"ok">> /\ UNCHANGED <<crun, cur, ctx, stack, ret>>

SearchNext ==
  \/ Start \/ Rejoin \/ Missing \/ Cycle \/ Returns \/ Straight \/ LoopHead \/ SelectionHead \/ LoopExit \/ Unexplained
  \/ Then \/ EndOfBody \/ EndOfTrue \/ EndOfFalse \/ EndOfRound \/ Finish

(* ---- invariants ---- *)
SearchTypeOK ==
  /\ cmode \in {"start", "look", "back", "done"}
  /\ (cmode = "done") = (cout # <<>>)
Ends == cout = <<"ok">> => ret[2] = "" /\ stack = <<>>   \* a chain is given only for functions that return
(* The search cannot go on for ever: along the way a block is passed once per set of joins, and joins only grow inwards. *)
Bounded == Cardinality(ctx.seen) <= Len(Bs) * (2 * Len(Bs) + 1) /\ Len(stack) <= Len(Bs) * (2 * Len(Bs) + 1)
=============================================================================
