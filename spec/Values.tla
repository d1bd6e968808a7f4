------------------------------- MODULE Values -------------------------------
(* Modules as values: a store of three slots, each empty or holding a module  *)
(* (header and instructions) or a logical module (instructions only).  Slots  *)
(* are made, copied, changed, dropped and validated; no operation reaches     *)
(* another slot than the one it names, and two slots are equal exactly when   *)
(* they hold the same fields.                                                 *)
EXTENDS Naturals, Sequences

CONSTANTS HistoryOf(_),   \* the operations of a run: <<name, slot, argument...>>
          Refused(_, _)   \* did validation refuse the module at this step (decided elsewhere)

VARIABLES vrun, step, store
vvars == <<vrun, step, store>>
Slots == 1..3
Nothing == [k |-> "none", h |-> <<>>, i |-> <<>>]
VInit(r) == vrun = r /\ step = 0 /\ store = [s \in Slots |-> Nothing]
VRestart(r) == vrun' = r /\ step' = 0 /\ store' = [s \in Slots |-> Nothing]

Op == HistoryOf(vrun)[step + 1]
Effect(o) ==
  CASE o.op = "new" -> [store EXCEPT ![o.s] = [k |-> "raw", h |-> o.h, i |-> o.i]]
    [] o.op = "copy" -> [store EXCEPT ![o.t] = store[o.s]]
    [] o.op = "drop" -> [store EXCEPT ![o.s] = Nothing]
    [] o.op = "set" -> [store EXCEPT ![o.s].i = [@ EXCEPT ![o.at] = o.i[1]]]
    [] o.op = "bound" -> [store EXCEPT ![o.s].h = [@ EXCEPT ![4] = <<o.i[1][1][1]>>]]
    [] o.op = "remove" -> [store EXCEPT ![o.s].i = SubSeq(@, 1, Len(@) - 1)]
    [] o.op = "log" -> [store EXCEPT ![o.t] = IF Refused(vrun, step + 1) THEN Nothing ELSE [k |-> "log", h |-> <<>>, i |-> store[o.s].i]]
    [] o.op = "cap" -> [store EXCEPT ![o.s].i = <<<<<<"OpCapability">>, <<"Matrix">>>>>> \o @]   \* changes a logical module
VNext ==
  /\ step < Len(HistoryOf(vrun))
  /\ store' = Effect(Op) /\ step' = step + 1 /\ UNCHANGED vrun
VDone == step = Len(HistoryOf(vrun))

Equal(s, t) == store[s] = store[t]
Comparable(s, t) == store[s].k = store[t].k /\ store[s].k # "none"

(* ---- properties of the machine ---- *)
Touched(o) == IF o.op \in {"copy", "log"} THEN {o.t} ELSE {o.s}
NoAliasing == [][(vrun' = vrun /\ step' = step + 1) => \A s \in Slots \ Touched(HistoryOf(vrun)[step + 1]) : store'[s] = store[s]]_vvars
CopyEqual == [][(vrun' = vrun /\ step' = step + 1 /\ HistoryOf(vrun)[step + 1].op = "copy")
                => store'[HistoryOf(vrun)[step + 1].t] = store[HistoryOf(vrun)[step + 1].s]]_vvars
=============================================================================
