------------------------------ MODULE Operands ------------------------------
(* What an extended instruction set is offered: the operand words of one      *)
(* instruction, from which it takes operands of kinds of its choice, one, if  *)
(* there is one, or all that are left.  Before each it may ask what is left.  *)
EXTENDS Decode

CONSTANTS WordsOf(_),    \* the operand words of a run
          ScriptOf(_)    \* what is taken: <<how, kind, name>>; how is "one", "opt" or "all"; or <<"fail", error...>>: the set refuses

VARIABLES orun,
          left,     \* words not yet taken
          taken,    \* per step: <<words left before, whether none, values>>
          oout      \* <<>>, <<"ok">> or the error
ovars == <<orun, left, taken, oout>>

OInit(r) == orun = r /\ left = WordsOf(r) /\ taken = <<>> /\ oout = <<>>
ORestart(r, ws) == orun' = r /\ left' = ws /\ taken' = <<>> /\ oout' = <<>>

(* One operand: a word as such, a pair, or what can be a field of an instruction. *)
Operand(kind, ws) ==
  CASE kind[1] \in {"word", "opid"} -> Number(ws)
    [] kind[1] \in {"pair", "weightpair"} -> IF Len(ws) < 2 THEN TooShort ELSE Ok(<<Dec(ws[1]), Dec(ws[2])>>, SubSeq(ws, 3, Len(ws)))
    [] OTHER -> Field(kind, ws)
One(kind, ws) == LET d == Operand(kind, ws) IN IF Good(d) THEN Ok(<<d.v>>, d.r) ELSE d
RECURSIVE AllOf(_, _, _)
AllOf(kind, ws, acc) ==
  IF ws = <<>> THEN Ok(acc, ws)
  ELSE LET d == Operand(kind, ws) IN IF Good(d) THEN AllOf(kind, d.r, Append(acc, d.v)) ELSE d
Take(how, kind, ws) ==
  CASE how = "one" -> One(kind, ws)
    [] how = "opt" -> IF ws = <<>> THEN Ok(<<>>, ws) ELSE One(kind, ws)
    [] OTHER -> AllOf(kind, ws, <<>>)

Script == ScriptOf(orun)
TakeNext ==
  /\ oout = <<>> /\ Len(taken) < Len(Script)
  /\ Script[Len(taken) + 1][1] # "fail"
  /\ LET s == Script[Len(taken) + 1]
         d == Take(s[1], <<s[2], s[3]>>, left) IN
     IF Good(d) THEN /\ left' = d.r /\ oout' = oout
                     /\ taken' = Append(taken, <<Len(left), left = <<>>, d.v>>)
                ELSE oout' = d.e /\ UNCHANGED <<left, taken>>
  /\ UNCHANGED orun
Refuse ==        \* the error of the set is that of the reading, whatever it is and whatever is left
  /\ oout = <<>> /\ Len(taken) < Len(Script)
  /\ Script[Len(taken) + 1][1] = "fail"
  /\ oout' = Tail(Script[Len(taken) + 1])
  /\ UNCHANGED <<orun, left, taken>>
Finished ==      \* what the set leaves is refused
  /\ oout = <<>> /\ Len(taken) = Len(Script)
  /\ oout' = IF left = <<>> THEN <<"ok">> ELSE <<"InstructionHadExcessData">>
  /\ UNCHANGED <<orun, left, taken>>
ONext == TakeNext \/ Refuse \/ Finished

(* ---- invariants ---- *)
(* What is left is always an end of what was there, and gets no longer. *)
Suffix ==
  LET ws == WordsOf(orun) IN
  /\ Len(left) <= Len(ws)
  /\ left = SubSeq(ws, Len(ws) - Len(left) + 1, Len(ws))
  /\ \A k \in 2..Len(taken) : taken[k][1] <= taken[k - 1][1]
  /\ \A k \in 1..Len(taken) : taken[k][2] = (taken[k][1] = 0)
AllTaken == oout = <<"ok">> => left = <<>> /\ Len(taken) = Len(Script)
=============================================================================
