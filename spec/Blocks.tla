------------------------------- MODULE Blocks -------------------------------
(* Basic blocks and control-flow chains.                                      *)
(*                                                                            *)
(* A block is <<label, code, merge, terminator>>, instructions as in Decode,  *)
(* merge a sequence of none or one.  A chain is a sequence of nodes           *)
(*   [t |-> "atom"|"sel"|"loop"|"break"|"continue", id, a, b, h, w]           *)
(* with a and b chains (arms, or the body of a loop), h the hints and w the   *)
(* branch weights.                                                            *)
EXTENDS Naturals, Sequences, TLC, SequencesExt, FiniteSets

(* ---- blocks ---- *)
LabelOf(b) == b[1][2][1]
Merge(b) == IF b[3] = <<>> THEN <<"none">>
            ELSE LET m == b[3][1] IN
                 IF m[1] = <<"OpSelectionMerge">> THEN <<"sel", m[2][1], m[3]>> ELSE <<"loop", m[2][1], m[4]>>
Branch(b) == LET i == b[4] IN
             CASE i[1] = <<"OpBranch">> -> <<"jump", i[2][1]>>
               [] i[1] = <<"OpBranchConditional">> -> <<"cond", i[3][1], i[4][1], i[5]>>
               [] OTHER -> <<"return">>
Labels(bs) == {LabelOf(bs[k]) : k \in 1..Len(bs)}
BlockNamed(bs, id) == bs[SelectInSeq(bs, LAMBDA b : LabelOf(b) = id)]
(* The first block that repeats an earlier label, 0 if none. *)
FirstRepeat(bs) ==
  LET r == {k \in 1..Len(bs) : \E j \in 1..(k - 1) : LabelOf(bs[j]) = LabelOf(bs[k])}
  IN IF r = {} THEN 0 ELSE CHOOSE k \in r : \A j \in r : k <= j

(* ---- chains ---- *)
Node(t, id, a, b, h, w) == [t |-> t, id |-> id, a |-> a, b |-> b, h |-> h, w |-> w]
Atom(id) == Node("atom", id, <<>>, <<>>, <<>>, <<>>)
Break == Node("break", "", <<>>, <<>>, <<>>, <<>>)
Continue == Node("continue", "", <<>>, <<>>, <<>>, <<>>)

(* Programs and chains are recorded as flat lists of tokens [t, id, h, w], so that their depth does not matter to the  *)
(* recording: a construct is opened by its token, "else" starts its second part, "end" closes it.                      *)
Constructs == {"block", "sel", "loop"}
AddNode(stack, n) ==
  LET top == stack[Len(stack)]
      more == IF top.second THEN [top.n EXCEPT !.b = Append(@, n)] ELSE [top.n EXCEPT !.a = Append(@, n)]
  IN Append(Front(stack), [top EXCEPT !.n = more])
Take(stack, k) ==
  CASE k.t = "end" -> AddNode(Front(stack), stack[Len(stack)].n)
    [] k.t = "else" -> Append(Front(stack), [stack[Len(stack)] EXCEPT !.second = TRUE])
    [] k.t \in Constructs -> Append(stack, [n |-> Node(k.t, k.id, <<>>, <<>>, k.h, k.w), second |-> FALSE])
    [] OTHER -> AddNode(stack, Node(k.t, k.id, <<>>, <<>>, k.h, k.w))
(* The sequence of nodes the tokens stand for. *)
Nested(ts) == FoldLeft(Take, <<[n |-> Node("", "", <<>>, <<>>, <<>>, <<>>), second |-> FALSE]>>, ts)[1].n.a
Recorded(ts) == Nested(ts)[1]

(* A recorded chain as a sequence of nodes: sequences inside sequences have no meaning of their own. *)
RECURSIVE Norm(_)
Norm(ns) ==
  FlattenSeq([k \in 1..Len(ns) |->
    IF ns[k].t = "block" THEN Norm(ns[k].a)
    ELSE <<[ns[k] EXCEPT !.a = Norm(@), !.b = Norm(@)]>>])
(* In the form delivered no sequence is directly inside another. *)
RECURSIVE FlatForm(_)
FlatForm(n) ==
  /\ n.t = "block" => \A k \in 1..Len(n.a) : n.a[k].t # "block"
  /\ \A k \in 1..Len(n.a) : FlatForm(n.a[k])
  /\ \A k \in 1..Len(n.b) : FlatForm(n.b[k])
=============================================================================
