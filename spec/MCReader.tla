----------------------------- MODULE MCReader -----------------------------
(* All small inputs, in both byte orders side by side: the reader always has  *)
(* exactly one next step, ends, frames by the word counts alone, accepts only *)
(* what its result spells, and does not notice the byte order.                *)
EXTENDS Encode

CONSTANTS OperandWords,  \* at most so many operand words of one instruction
          Body,          \* at most so many words after the header in mixed inputs
          Uses           \* at most so many imports and uses

VARIABLES run, phase, pos, big, hdr, insts, ends, binds, out,          \* one order
          phase2, pos2, big2, hdr2, insts2, ends2, binds2, out2        \* the other
vars == <<run, phase, pos, big, hdr, insts, ends, binds, out, phase2, pos2, big2, hdr2, insts2, ends2, binds2, out2>>

(* A run: words, how many bytes of the last one are missing, the bytes in both orders. *)
ByteSeq(ws, o) ==
  FlattenSeq([k \in 1..Len(ws) |-> LET b == Bytes(ws[k]) IN IF o THEN <<b[4], b[3], b[2], b[1]>> ELSE b])
Cut(s, n) == SubSeq(s, 1, IF n > Len(s) THEN 0 ELSE Len(s) - n)
Run(ws, n) == <<ws, n, Cut(ByteSeq(ws, FALSE), n), Cut(ByteSeq(ws, TRUE), n)>>
InA(r) == r[3]
InB(r) == r[4]
Sets(r) == <<"B", "A", "G">>

A == INSTANCE Reader WITH InputOf <- InA, SetsOf <- Sets
B == INSTANCE Reader WITH InputOf <- InB, SetsOf <- Sets, phase <- phase2, pos <- pos2, big <- big2, hdr <- hdr2,
                          insts <- insts2, ends <- ends2, binds <- binds2, out <- out2

(* ---- the inputs ---- *)
M == <<1827, 515>>   V == <<1, 0>>
(* From the start, or from the end of the usual header. *)
Start(ws, n) == LET r == Run(ws, n) IN A!ReaderInit(r) /\ B!ReaderInit(r)
Hdr == <<M, V, <<8, 1>>, <<0, 9>>, Zero>>
After(ws, n) ==
  /\ run = Run(Hdr \o ws, n)
  /\ phase = "body" /\ pos = 20 /\ big = FALSE /\ hdr = <<<<"1", "0">>, <<"KhronosGlslang">>, <<"1">>, <<"9">>>>
  /\ insts = <<>> /\ ends = <<20>> /\ binds = <<>> /\ out = <<>>
  /\ phase2 = phase /\ pos2 = pos /\ big2 = TRUE /\ hdr2 = hdr /\ insts2 = <<>> /\ ends2 = ends /\ binds2 = <<>> /\ out2 = <<>>
HdrWords == <<{M, Swap(M), <<1827, 516>>, Zero}, {V, <<1, 1>>, <<257, 0>>, <<2, 0>>, <<0, 1>>}, {<<0, 0>>, <<12, 5>>, <<65535, 65535>>},
              {<<0, 0>>, <<65535, 65535>>, <<32768, 7>>}, {Zero, <<0, 1>>, <<32768, 0>>}>>
HeaderRun ==
  \/ \E w1 \in HdrWords[1], w2 \in HdrWords[2], w3 \in HdrWords[3], w4 \in HdrWords[4], w5 \in HdrWords[5], n \in {0, 3} : Start(<<w1, w2, w3, w4, w5>>, n)
  \/ \E k \in 0..5, n \in 0..3 : Start(SubSeq(Hdr, 1, k), n)
(* Every opcode, with words that are small numbers, flags, text, ends of text and large numbers. *)
OpWords == {Zero, <<0, 1>>, <<0, 2>>, <<0, 65>>, <<16705, 49833>>, <<65535, 65535>>}
FewWords == {Zero, <<0, 1>>, <<16705, 49833>>}
Tuples(n) == IF n <= 3 THEN [1..n -> OpWords] ELSE [1..n -> FewWords]
SomeOps == DOMAIN Ops \cup {8, 48, 110, 400, 65535}
OpRun == \E n \in 0..OperandWords, op \in SomeOps : \E t \in Tuples(n) : After(<<<<n + 1, op>>>> \o t, 0)
(* The enumerants and flags of every operand of such a kind. *)
EnumOps == {op \in DOMAIN Ops : \E k \in 1..Len(Ops[op].f) : Ops[op].f[k][1] \in {"enum", "comp", "mask", "optmask", "optenum", "srclang"}}
EnumWords(kind) ==
  CASE kind[1] \in {"enum", "comp", "optenum"} -> {<<0, n>> : n \in DOMAIN EnumVal[kind[2]]} \cup {<<0, 9999>>, <<1, 0>>}
    [] kind[1] \in {"mask", "optmask"} -> {<<0, n>> : n \in 0..(Pow2(Len(MaskBits[kind[2]])) * 2)} \cup {<<1, 0>>, <<32768, 1>>}
    [] OTHER -> {<<0, n>> : n \in 0..6} \cup {<<1, 2>>}
EnumTail == UNION {[1..n -> {Zero, <<0, 1>>, <<97, 66>>}] : n \in 0..3}
EnumRun ==
  \E op \in EnumOps : \E k \in 1..Len(Ops[op].f) :
    LET ks == Ops[op].f  pre == [j \in 1..(k - 1) |-> IF ks[j][1] = "str" THEN <<97, 66>> ELSE <<0, 1>>] IN
    /\ ks[k][1] \in {"enum", "comp", "mask", "optmask", "optenum", "srclang"}
    /\ \E w \in EnumWords(ks[k]), t \in EnumTail : LET ws == pre \o <<w>> \o t IN After(<<<<1 + Len(ws), op>>>> \o ws, 0)
(* Several instructions, with words that are first words of instructions, operands and text, cut anywhere. *)
MixWords == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<1, 56>>, <<2, 19>>, <<3, 5>>, <<4, 11>>, <<5, 12>>, <<6, 12>>, <<98, 11860>>, <<0, 1>>, <<1, 400>>}
MixRun == \E k \in 0..Body : \E s \in [1..k -> MixWords], n \in IF k = 0 THEN {0} ELSE {0, 2} : After(s, n)
(* Imports and uses. *)
Nm(s) == CASE s = "a" -> <<<<97, 11860>>>> [] s = "b" -> <<<<98, 11860>>>> [] OTHER -> <<<<99, 11860>>>>
Imp(id, s) == <<<<3, 11>>, <<0, id>>>> \o Nm(s)
Use(id, n, k) == <<<<5 + k, 12>>, <<0, 1>>, <<0, 2>>, <<0, id>>, <<0, n>>>> \o [j \in 1..k |-> <<7, j>>]
Steps == {Imp(i, s) : i \in {3, 4}, s \in {"a", "b", "c"}} \cup {Use(i, n, k) : i \in {3, 4}, n \in {0, 1, 2, 150, 250}, k \in {0, 1, 2}}
ExtRun == \E k \in 1..Uses : \E s \in [1..k -> Steps] : After(FlattenSeq(s), 0)

Init == HeaderRun \/ OpRun \/ EnumRun \/ MixRun \/ ExtRun
Done == phase = "done" /\ UNCHANGED vars      \* the only place to stay
Next == (A!ReaderNext /\ B!ReaderNext) \/ Done
Spec == Init /\ [][Next]_vars

(* ---- what has to hold ---- *)
SameInBothOrders ==
  /\ phase = phase2 /\ pos = pos2 /\ hdr = hdr2 /\ insts = insts2 /\ ends = ends2 /\ binds = binds2 /\ out = out2
  /\ phase \notin {"magic", "done"} => big # big2
(* The result spells the input. *)
SpellsInput ==
  out = <<"ok">> =>
    /\ hdr = <<<<"1", "0">>, IF run[1][3][1] \in DOMAIN Tools THEN <<Tools[run[1][3][1]]>> ELSE <<"Other", ToString(run[1][3][1])>>,
               <<ToString(run[1][3][2])>>, <<Dec(run[1][4])>>>>
    /\ \A k \in 1..Len(insts) : Spells(insts[k], SubSeq(run[1], (ends[k] \div 4) + 1, ends[k + 1] \div 4))
(* Where instructions end, by the word counts alone. *)
RECURSIVE Bounds(_, _)
Bounds(ws, k) == IF k < Len(ws) /\ ws[k + 1][1] > 0 THEN {k} \cup Bounds(ws, k + ws[k + 1][1]) ELSE {k}
FramedByCounts ==
  /\ \A k \in 1..Len(ends) : ends[k] \div 4 \in Bounds(run[1], 5)
  /\ out = <<"ok">> => run[2] = 0 /\ Len(run[1]) \in Bounds(run[1], 5)
  /\ out # <<>> /\ out[1] = "UnexpectedStreamAlignment" => run[2] # 0 /\ run[1] # <<>>
Inv == A!ReaderTypeOK /\ A!Framing /\ A!AcceptedWhole /\ SameInBothOrders /\ SpellsInput /\ FramedByCounts
ASSUME TablesOK
=============================================================================
