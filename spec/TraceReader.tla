---------------------------- MODULE TraceReader ----------------------------
(* Trace specification of reading: each recorded call of read_module is one   *)
(* run of the reader machine; when the run is done the recorded result must   *)
(* be the machine's.  A difference is printed with the properties it breaks   *)
(* and the next run starts.                                                   *)
EXTENDS Reader, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
(* What this check is about: a set of property ids in one string. *)
TrInput(r) == Trace[r].b
TrSets(r) == Trace[r].s

(* ---- which property does a difference break ---- *)
EnumKinds == {"enum", "optenum", "mask", "optmask", "comp", "srclang"}
KindBlame(ks) ==
  (IF \E k \in ks : k[1] \in EnumKinds THEN {"C07"} ELSE {}) \cup
  (IF \E k \in ks : k[1] \in {"str", "optstr"} \/ k = <<"comp", "Decoration">> THEN {"C08"} ELSE {})
OpBlame(name) ==
  IF name \notin DOMAIN FieldsOf THEN {}
  ELSE KindBlame(ToSet(FieldsOf[name])) \cup (IF name \in {"OpExtInst", "OpExtInstImport"} THEN {"C09"} ELSE {})

(* Two instructions that differ. *)
InstBlame(a, b) ==
  IF a[1] # b[1] THEN {"C04", "C06"}
  ELSE IF Len(a) # Len(b) THEN {"C05"} \cup OpBlame(a[1][1])
  ELSE LET j == CHOOSE j \in 2..Len(a) : a[j] # b[j] /\ \A i \in 2..(j - 1) : a[i] = b[i]
           ks == ToSet(SubSeq(FieldsOf[a[1][1]], 1, j - 1))
       IN {"C05"} \cup KindBlame(ks) \cup (IF a[1][1] \in {"OpExtInst", "OpExtInstImport"} THEN {"C09"} ELSE {})

HeaderErrors == {"BadMagic", "UnknownVersionBytes", "UnknownVersion", "UnknownReservedSchema"}
SetErrors == {"UnknownInstSet", "UnknownInstSetId", "UnknownExtInstOp", "DuplicateResultId"}
(* The instruction being read when the machine stopped, if any. *)
AtOp == IF phase = "done" /\ ends # <<>> /\ ends[Len(ends)] + 4 <= Len(InputOf(run))
        THEN LET op == WordAt(ends[Len(ends)])[2] IN IF op \in DOMAIN Ops THEN {Ops[op].name} ELSE {}
        ELSE {}
Names == {insts[k][1][1] : k \in 1..Len(insts)} \cup AtOp
ErrBlame(e) ==
  CASE e[1] \in HeaderErrors -> {"C02"}
    [] e[1] \in {"UnexpectedEndOfStream", "UnexpectedStreamAlignment"} -> IF ends = <<>> THEN {"C02"} ELSE {"C04"}
    [] e[1] = "WrongWordCountForOp" -> {"C04"}
    [] e[1] \in {"UnknownOp", "UnimplementedOp"} -> {"C06"}
    [] e[1] \in {"UnexpectedEndOfInstruction", "InstructionHadExcessData"} -> {"C05"} \cup UNION {OpBlame(n) : n \in Names}
    [] e[1] = "InvalidString" -> {"C08"}
    [] e[1] \in SetErrors -> {"C09"}
    [] OTHER -> {"C07"}

(* A crash breaks C01, and what was promised for this input. *)
CrashBlame ==
  {"C01"} \cup (IF out # <<"ok">> THEN ErrBlame(out) ELSE {"C05"} \cup UNION {OpBlame(n) : n \in Names}) \cup
  (IF ends = <<>> THEN {"C02"} ELSE {"C04"})
Blame(o) ==
  IF o.k \notin {"ok", "err"} THEN CrashBlame
  ELSE IF o.k = "ok" /\ out = <<"ok">>
  THEN (IF o.h # hdr THEN {"C02"} ELSE {}) \cup
       (IF Len(o.i) # Len(insts) THEN {"C04"} ELSE {}) \cup
       UNION {IF o.i[k] = insts[k] THEN {} ELSE InstBlame(insts[k], o.i[k])
              : k \in 1..(IF Len(o.i) < Len(insts) THEN Len(o.i) ELSE Len(insts))}
  ELSE IF o.k = "ok" THEN ErrBlame(out)
  ELSE IF out = <<"ok">> THEN ErrBlame(o.e) \cup (IF ends = <<>> THEN {"C02"} ELSE {})
  ELSE IF o.e = out THEN {}
  ELSE ErrBlame(out) \cup ErrBlame(o.e)

(* Both byte orders: the same result, and equal as values. *)
SwapBlame(c) ==
  IF ~c.hasSwap THEN {}
  ELSE IF c.sw.k # c.o.k \/ c.sw.h # c.o.h \/ c.sw.i # c.o.i \/ c.sw.e # c.o.e \/ c.same # 1 THEN {"C03"} ELSE {}

(* Every proper prefix of the input, read on its own (0-based lengths). *)
PreBlame(c) ==
  IF c.pre = <<>> THEN {}
  ELSE IF \E n \in 1..Len(c.pre) : c.pre[n] # PrefixOutcome(n - 1) THEN {"C04"} ELSE {}
FirstPre(c) == CHOOSE n \in 1..Len(c.pre) : c.pre[n] # PrefixOutcome(n - 1)

(* Memory in KiB: a fixed allowance plus a multiple of the input. *)
MemBlame(c) == IF c.mem > 4096 + Len(c.b) \div 2 THEN {"C01"} ELSE {}

CaseBlame(c) ==
  IF c.o.k \notin {"ok", "err"} THEN CrashBlame
  ELSE Blame(c.o) \cup SwapBlame(c) \cup PreBlame(c) \cup MemBlame(c)

(* What the specification expects, for the report. *)
Expected == IF out = <<"ok">> THEN <<"ok", hdr, insts>> ELSE out

Judge ==
  LET b == CaseBlame(Trace[run]) IN
  IF b = {} THEN TRUE
  ELSE PrintT(<<"MISMATCH", Trace[run].n, SetToSeq(b), Expected>>)

TraceInit == ReaderInit(1)
TraceNext ==
  \/ run <= N /\ phase # "done" /\ ReaderNext
  \/ /\ run <= N /\ phase = "done"
     /\ Judge
     /\ IF run = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
     /\ ReaderRestart(run + 1)
TraceSpec == TraceInit /\ [][TraceNext]_rvars

TraceInv == run <= N => ReaderTypeOK /\ Framing /\ AcceptedWhole
=============================================================================
