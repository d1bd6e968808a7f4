------------------------------ MODULE Session ------------------------------
(* Several threads use the library.  A call takes time: it begins and later   *)
(* ends with an answer.  The answer to a call depends on the call alone, so   *)
(* it is the same whatever has been called before, by whom, how often, and    *)
(* whatever else is under way.                                                *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS PlanOf(_, _),     \* calls thread t makes in run r, in order
          ThreadsOf(_),     \* threads of a run
          Says(_, _, _)     \* answer of the k-th call of thread t in run r

VARIABLES srun,
          done,     \* thread -> calls ended
          busy,     \* threads with a call under way
          answers   \* call -> answer, as far as known
svars == <<srun, done, busy, answers>>

SInit(r, known) == srun = r /\ done = [t \in ThreadsOf(r) |-> 0] /\ busy = {} /\ answers = known
SRestart(r, known, ts) == srun' = r /\ done' = [t \in ts |-> 0] /\ busy' = {} /\ answers' = known

Begin(t) ==
  /\ t \notin busy /\ done[t] < Len(PlanOf(srun, t))
  /\ busy' = busy \cup {t} /\ UNCHANGED <<srun, done, answers>>
Call(t) == PlanOf(srun, t)[done[t] + 1]
Answer(t) == Says(srun, t, done[t] + 1)
(* The first time a call is seen its answer becomes known; afterwards it has to be that one. *)
EndOf(t) ==
  /\ t \in busy
  /\ Call(t) \in DOMAIN answers => answers[Call(t)] = Answer(t)
  /\ answers' = [c \in DOMAIN answers \cup {Call(t)} |-> IF c \in DOMAIN answers THEN answers[c] ELSE Answer(t)]
  /\ busy' = busy \ {t} /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED srun
SNext == \E t \in ThreadsOf(srun) : Begin(t) \/ EndOf(t)
AllDone == \A t \in ThreadsOf(srun) : done[t] = Len(PlanOf(srun, t))

(* No answer ever changes. *)
Stable == [][srun' = srun => \A c \in DOMAIN answers : c \in DOMAIN answers' /\ answers'[c] = answers[c]]_svars
=============================================================================
