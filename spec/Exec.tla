-------------------------------- MODULE Exec --------------------------------
(* Running a function and running a chain, block by block.                    *)
EXTENDS Blocks

(* ---- the function: the block executed next, "" when it has returned ---- *)
FunStart(bs) == LabelOf(bs[1])
FunNext(bs, id, outcome) ==
  LET br == Branch(BlockNamed(bs, id)) IN
  CASE br[1] = "jump" -> br[2]
    [] br[1] = "cond" -> IF outcome THEN br[2] ELSE br[3]
    [] OTHER -> ""

(* ---- the chain: frames of nodes still to run, innermost last ----          *)
(* A frame is [rest, loop]: loop is <<>> or the loop node whose body it is.   *)
RECURSIVE ToLoop(_)
ToLoop(k) == IF k = <<>> THEN <<>> ELSE IF k[Len(k)].loop # <<>> THEN k ELSE ToLoop(Front(k))
(* Finished frames are dropped: the same place is always written the same way. *)
RECURSIVE Trim(_)
Trim(k) == IF k = <<>> THEN <<>>
           ELSE IF k[Len(k)].rest = <<>> /\ k[Len(k)].loop = <<>> THEN Trim(Front(k)) ELSE k
Push(k, ns) == IF ns = <<>> THEN k ELSE Append(k, [rest |-> ns, loop |-> <<>>])
(* Where the chain stands: <<block executed next or "", node, frames after it>> *)
RECURSIVE Settle(_)
Settle(k) ==
  IF k = <<>> THEN <<"", <<>>, <<>>>>
  ELSE LET f == k[Len(k)]  below == Front(k) IN
       IF f.rest = <<>> THEN IF f.loop = <<>> THEN Settle(below)
                             ELSE Settle(Push(below, <<f.loop[1]>>))    \* round again, from the header
       ELSE LET n == f.rest[1]  more == Trim(Append(below, [f EXCEPT !.rest = Tail(@)])) IN
            CASE n.t \in {"atom", "sel", "loop"} -> <<n.id, n, more>>
              [] n.t = "break" -> LET l == ToLoop(more) IN IF l = <<>> THEN <<"?", n, <<>>>> ELSE Settle(Front(l))
              [] n.t = "continue" -> LET l == ToLoop(more) IN
                                     IF l = <<>> THEN <<"?", n, <<>>>>
                                     ELSE Settle(Push(Front(l), <<l[Len(l)].loop[1]>>))
              [] OTHER -> <<"?", n, <<>>>>
ChainStart(c) == Settle(Push(<<>>, c))
ChainNext(s, outcome) ==
  LET n == s[2]  k == s[3] IN
  CASE n.t = "atom" -> Settle(k)
    [] n.t = "sel" -> Settle(Push(k, IF outcome THEN n.a ELSE n.b))
    [] OTHER -> Settle(Append(k, [rest |-> n.a, loop |-> <<n>>]))

(* ---- every construct carries what its header says ---- *)
RECURSIVE Carries(_, _)
Carries(bs, c) ==
  \A k \in 1..Len(c) :
    LET n == c[k] IN
    /\ n.t \in {"atom", "sel", "loop"} => n.id \in Labels(bs)
    /\ n.t = "sel" =>
         LET b == BlockNamed(bs, n.id) IN
         /\ Branch(b)[1] = "cond" /\ n.w = Branch(b)[4]
         /\ n.h = IF Merge(b)[1] = "none" THEN <<>> ELSE Merge(b)[3]
    /\ n.t = "loop" =>
         LET b == BlockNamed(bs, n.id) IN
         /\ Merge(b)[1] = "loop" /\ n.h = Merge(b)[3]
         /\ n.w = IF Branch(b)[1] = "cond" THEN Branch(b)[4] ELSE <<>>
    /\ n.t \in {"break", "continue", "atom"} => n.a = <<>> /\ n.b = <<>>
    /\ Carries(bs, n.a) /\ Carries(bs, n.b)
(* ---- equivalence, decided by exploring all pairs of places ---- *)
RECURSIVE Explore(_, _, _)
Explore(bs, new, seen) ==
  IF new = {} THEN TRUE
  ELSE IF \E x \in new : x[1] # x[2][1] THEN FALSE
  ELSE LET next == UNION {IF x[1] = "" THEN {} ELSE {<<FunNext(bs, x[1], o), ChainNext(x[2], o)>> : o \in BOOLEAN} : x \in new}
           all == seen \cup new
       IN Explore(bs, next \ all, all)
Equivalent(bs, c) == Explore(bs, {<<FunStart(bs), ChainStart(c)>>}, {})
=============================================================================
