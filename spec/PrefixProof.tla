---------------------------- MODULE PrefixProof ----------------------------
(* The law of prefixes (C04) for inputs of any length, proved with TLAPS.     *)
(* The reader's machine, reduced to what framing depends on: the input is     *)
(* words 0..n-1 after the header; Count[p] is the word count written in word  *)
(* p; Good[p] says that the instruction at p decodes in the context of what   *)
(* stands before it (which is the same for every prefix that contains p).     *)
EXTENDS Naturals, TLAPS

CONSTANTS N,      \* words of the whole input
          K,      \* words of the prefix
          Count, Good
ASSUME Sizes == N \in Nat /\ K \in Nat /\ K <= N
ASSUME Tables == Count \in [Nat -> Nat] /\ Good \in [Nat -> BOOLEAN]

VARIABLES pos, st,        \* reading the whole input: position, "run" "ok" "short" "bad"
          pos2, st2,      \* reading the prefix
          bounds          \* positions at which instructions of the whole input end
vars == <<pos, st, pos2, st2, bounds>>

(* One step of a reader with n words, from position p: what is next. *)
Outcome(p, n) ==
  IF p = n THEN "ok"
  ELSE IF Count[p] = 0 THEN "bad"
  ELSE IF p + Count[p] > n THEN "short"
  ELSE IF Good[p] THEN "run" ELSE "bad"
After(p, n) == IF Outcome(p, n) = "run" THEN p + Count[p] ELSE p

Init == pos = 0 /\ st = "run" /\ pos2 = 0 /\ st2 = "run" /\ bounds = {0}
StepWhole ==
  IF st = "run" THEN /\ st' = Outcome(pos, N) /\ pos' = After(pos, N)
                     /\ bounds' = bounds \cup {After(pos, N)}
                ELSE UNCHANGED <<st, pos, bounds>>
StepPrefix ==
  IF st2 = "run" THEN st2' = Outcome(pos2, K) /\ pos2' = After(pos2, K)
                 ELSE UNCHANGED <<st2, pos2>>
Next == StepWhole /\ StepPrefix
Spec == Init /\ [][Next]_vars

Inv ==
  /\ pos \in Nat /\ pos2 \in Nat /\ pos <= N /\ pos2 <= K
  /\ st \in {"run", "ok", "short", "bad"} /\ st2 \in {"run", "ok", "short", "bad"}
  /\ bounds \subseteq 0..pos /\ pos \in bounds
  /\ pos2 \in bounds
  /\ st2 = "run" => st = "run" /\ pos = pos2
  /\ st2 = "bad" => st = "bad" /\ pos = pos2
  /\ st2 = "ok" => pos2 = K
  /\ st2 = "short" => K \notin bounds /\ pos2 < K /\ Count[pos2] > 0 /\ pos2 + Count[pos2] > K
                      /\ \A b \in bounds : b <= pos2 \/ b > K
  /\ st = "ok" => pos = N

(* A prefix is accepted only at the end of an instruction of the whole input, *)
(* and then gives the instructions before that place; a prefix that ends      *)
(* anywhere else is cut short, unless the whole input is refused before that. *)
Law ==
  /\ st2 = "ok" => K \in bounds
  /\ st2 = "short" => K \notin bounds
  /\ st2 = "bad" => st = "bad" /\ pos = pos2

THEOREM Spec => []Law
<1>1. Init => Inv
  BY Sizes DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2> USE Sizes, Tables DEF Inv, Outcome, After
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF vars
  <2>2. CASE Next /\ st2 = "run"
    <3>0. st = "run" /\ pos = pos2
      BY <2>2
    <3>1. CASE pos2 = K
      BY <2>2, <3>0, <3>1 DEF Next, StepWhole, StepPrefix
    <3>2. CASE pos2 # K /\ Count[pos2] = 0
      BY <2>2, <3>0, <3>2 DEF Next, StepWhole, StepPrefix
    <3>3. CASE pos2 # K /\ Count[pos2] # 0 /\ pos2 + Count[pos2] > K
      <4>1. pos2 < K /\ Count[pos2] \in Nat /\ Count[pos2] > 0
        BY <3>3
      <4>2. st2' = "short" /\ pos2' = pos2
        BY <2>2, <3>3 DEF Next, StepPrefix
      <4>3. pos' \in {pos, pos + Count[pos]} /\ pos' <= N /\ bounds' = bounds \cup {pos'}
        BY <2>2, <3>0, <3>3 DEF Next, StepWhole
      <4>4. \A b \in bounds' : b <= pos2 \/ b > K
        BY <3>0, <3>3, <4>1, <4>3
      <4>5. K \notin bounds'
        BY <4>1, <4>4
      <4>6. st' \in {"run", "ok", "short", "bad"} /\ (st' = "ok" => pos' = N)
        BY <2>2, <3>0, <3>3 DEF Next, StepWhole
      <4>7. pos' \in Nat /\ pos' >= pos
        BY <4>1, <4>3, <3>0
      <4>8. bounds' \subseteq 0..pos' /\ pos' \in bounds' /\ pos2 \in bounds'
        BY <4>3, <4>7
      <4> QED BY <3>3, <4>1, <4>2, <4>3, <4>4, <4>5, <4>6, <4>7, <4>8
    <3>4. CASE pos2 # K /\ Count[pos2] # 0 /\ pos2 + Count[pos2] <= K
      BY <2>2, <3>0, <3>4 DEF Next, StepWhole, StepPrefix
    <3> QED BY <2>2, <3>1, <3>2, <3>3, <3>4
  <2>3. CASE Next /\ st2 # "run"
    BY <2>3 DEF Next, StepWhole, StepPrefix
  <2> QED BY <2>1, <2>2, <2>3 DEF Next
<1>3. Inv => Law
  BY DEF Inv, Law
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
