----------------------------- MODULE LayoutSize -----------------------------
(* The layout machine with the instructions forgotten: classes in, sizes out. *)
(* MCLayout checks that it follows Layout step by step; here it is run on     *)
(* modules given as repeated pieces, so that large ones are within reach.     *)
EXTENDS Naturals, Sequences, TLC, SequencesExt

SecNames == <<"cap", "ext", "imp", "mem", "entry", "mode", "debug", "annot", "global">>
SecRank(c) == SelectInSeq(SecNames, LAMBDA s : s = c)
(* sizes: the nine sections, declarations, definitions, parameters, blocks, body instructions, merges *)
ZeroSizes == [k \in 1..15 |-> 0]
Begin == [mode |-> "top", stage |-> 1, sz |-> ZeroSizes, at |-> 0, err |-> <<>>]
No(s, name) == [s EXCEPT !.mode = "done", !.err = <<name, ToString(s.at)>>]
Go(s, m, k) == [s EXCEPT !.mode = m, !.at = @ + 1, !.sz = IF k = 0 THEN @ ELSE [@ EXCEPT ![k] = @ + 1]]

(* One instruction of class c, with left instructions to go including it (0: the end). *)
CStep(s, c, left) ==
  LET r == SecRank(c) IN
  CASE s.mode = "top" /\ s.stage < 4 ->
         IF r \in s.stage..4 THEN [Go(s, "top", r) EXCEPT !.stage = r]
         ELSE [s EXCEPT !.mode = "done", !.err = <<"MemoryModelMissing">>]
    [] s.mode = "top" /\ s.stage >= 4 ->
         IF left = 0 THEN [s EXCEPT !.mode = "done", !.err = <<"ok">>]
         ELSE IF r > 4 /\ r >= s.stage THEN [Go(s, "top", r) EXCEPT !.stage = r]
         ELSE IF c = "func" /\ left >= 2 THEN [Go(s, "params", 0) EXCEPT !.stage = IF @ < 10 THEN 10 ELSE @]
         ELSE No(s, IF left = 1 THEN "UnexpectedInstruction" ELSE "ExpectedOpFunction")
    [] s.mode = "params" ->
         CASE c = "param" -> Go(s, "params", 12)
           [] c = "end" -> IF s.stage = 10 THEN Go(s, "top", 10) ELSE No(s, "UnexpectedInstruction")
           [] c = "label" -> [Go(s, "code", 0) EXCEPT !.stage = 11]
           [] OTHER -> No(s, "ExpectedOpFunctionEnd")
    [] s.mode = "code" ->
         CASE c = "code" -> Go(s, "code", 14)
           [] c = "merge" -> Go(s, "merged", 15)
           [] c = "branch" -> Go(s, "blocks", 13)
           [] OTHER -> No(s, "ExpectedBranch")
    [] s.mode = "merged" -> IF c = "branch" THEN Go(s, "blocks", 13) ELSE No(s, "ExpectedBranch")
    [] s.mode = "blocks" ->
         CASE c = "label" -> Go(s, "code", 0)
           [] c = "end" -> Go(s, "top", 11)
           [] OTHER -> No(s, "ExpectedOpFunctionEnd")

RECURSIVE Once(_, _, _, _)
Once(s, cs, j, left) ==
  IF s.mode = "done" \/ j > Len(cs) THEN s ELSE Once(CStep(s, cs[j], left), cs, j + 1, left - 1)
(* n times the piece cs; in a steady state all but the last few are taken at once. *)
RECURSIVE Times(_, _, _, _)
Times(s, cs, n, left) ==
  IF s.mode = "done" \/ n = 0 THEN s
  ELSE LET t == Once(s, cs, 1, left) IN
       IF n > 3 /\ t.mode = s.mode /\ t.stage = s.stage /\ t.mode # "done"
       THEN LET k == n - 2 IN
            Times([s EXCEPT !.at = @ + k * Len(cs), !.sz = [i \in 1..15 |-> s.sz[i] + k * (t.sz[i] - s.sz[i])]], cs, 2, left - k * Len(cs))
       ELSE Times(t, cs, n - 1, left - Len(cs))
RECURSIVE Pieces(_, _, _)
Pieces(s, ps, left) ==     \* ps: <<[c |-> classes, n |-> repetitions], ...>>
  IF s.mode = "done" THEN s
  ELSE IF ps = <<>> THEN CStep(s, "none", 0)
  ELSE Pieces(Times(s, ps[1].c, ps[1].n, left), Tail(ps), left - Len(ps[1].c) * ps[1].n)
RECURSIVE Amount(_)
Amount(ps) == IF ps = <<>> THEN 0 ELSE Len(ps[1].c) * ps[1].n + Amount(Tail(ps))
Outcome(ps) == Pieces(Begin, ps, Amount(ps))
=============================================================================
