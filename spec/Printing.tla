------------------------------ MODULE Printing ------------------------------
(* Printing a control-flow chain, alone ("chain") or with the function it     *)
(* belongs to ("function"): a machine with a list of things still to print.   *)
(* Chains are as recorded: a node of type "block" is a sequence.              *)
EXTENDS Texts, Blocks

CONSTANTS ChainOfRun(_), FunctionOfRun(_)
VARIABLES prun,    \* the chain printed
          pstyle,  \* "chain" or "function"
          todo,    \* nodes and finished lines, each with its level
          plines   \* lines printed
pvars == <<prun, pstyle, todo, plines>>

Item(n, l) == [node |-> n, line |-> "", lev |-> l]
Text(s, l) == [node |-> <<>>, line |-> s, lev |-> l]
RECURSIVE Indent(_)
Indent(l) == IF l = 0 THEN "" ELSE "    " \o Indent(l - 1)

Hints(n) ==
  (IF n.h = <<>> THEN "" ELSE " [" \o FlagsText(IF n.t = "sel" THEN "SelectionControl" ELSE "LoopControl", n.h) \o "]") \o
  (IF n.w = <<>> THEN "" ELSE " [" \o n.w[1] \o " " \o n.w[2] \o "]")
Empty(n) == n.t = "block" /\ n.a = <<>>

(* The instructions of a block of the function: body and terminator. *)
BlockText(id, l) ==
  LET b == BlockNamed(FunctionOfRun(prun), id) IN
  <<Text("> Begin " \o id, l)>> \o
  [k \in 1..Len(b[2]) |-> Text(">>> " \o LineOf(b[2][k]), l)] \o
  <<Text(">>> " \o LineOf(b[4]), l), Text("> End " \o id, l)>>

(* How a construct begins. *)
Opening(n, l) ==
  IF pstyle = "chain"
  THEN <<Text((IF n.t = "sel" THEN "selection " ELSE "loop ") \o IdText(n.id) \o Hints(n) \o " {", l)>>
  ELSE BlockText(n.id, l) \o <<[Text("{", l) EXCEPT !.node = <<Hints(n)>>]>>     \* the hints stand before the brace, not indented

Expand(n, l) ==
  CASE n.t = "block" -> [k \in 1..Len(n.a) |-> Item(n.a[k], l)]
    [] n.t = "atom" -> IF pstyle = "chain" THEN <<Text(IdText(n.id), l)>> ELSE BlockText(n.id, l)
    [] n.t = "break" -> <<Text("break;", l)>>
    [] n.t = "continue" -> <<Text("continue;", l)>>
    [] n.t = "sel" -> Opening(n, l) \o <<Item(n.a[1], l + 1)>> \o
                      (IF Empty(n.b[1]) THEN <<>> ELSE <<Text("} else {", l), Item(n.b[1], l + 1)>>) \o <<Text("}", l)>>
    [] n.t = "loop" -> Opening(n, l) \o <<Item(n.a[1], l + 1)>> \o <<Text("}", l)>>

PInit(r, s) == prun = r /\ pstyle = s /\ todo = <<Item(ChainOfRun(r), 0)>> /\ plines = <<>>
PRestart(r, s) == prun' = r /\ pstyle' = s /\ todo' = <<Item(ChainOfRun(r), 0)>> /\ plines' = <<>>

IsLine(x) == x.line # ""
PrintLine ==
  /\ todo # <<>> /\ IsLine(Head(todo))
  /\ plines' = Append(plines, (IF Head(todo).node = <<>> THEN "" ELSE Head(todo).node[1]) \o Indent(Head(todo).lev) \o Head(todo).line)
  /\ todo' = Tail(todo) /\ UNCHANGED <<prun, pstyle>>
OpenNode ==
  /\ todo # <<>> /\ ~IsLine(Head(todo))
  /\ todo' = Expand(Head(todo).node, Head(todo).lev) \o Tail(todo)
  /\ UNCHANGED <<prun, pstyle, plines>>
PNext == PrintLine \/ OpenNode
PDone == todo = <<>>

(* Every brace that is opened is closed. *)
EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Opened == Cardinality({k \in 1..Len(plines) : EndsWith(plines[k], "{")})
Closed == Cardinality({k \in 1..Len(plines) : EndsWith(plines[k], "}") \/ EndsWith(plines[k], "} else {")})
Balanced == PDone => Opened = Closed
=============================================================================
