----------------------------- MODULE MCPrefix -----------------------------
(* All small inputs and all their prefixes, read side by side: the outcome of *)
(* reading a prefix is the one the run on the whole input foretells.  (For    *)
(* inputs of any length the law is proved in PrefixProof, on the machine      *)
(* reduced to its framing; Reduced says that the reader is such a machine.)   *)
EXTENDS Decode

CONSTANT Body      \* at most so many words after the header

VARIABLES run, phase, pos, big, hdr, insts, ends, binds, out,          \* the whole input
          phase2, pos2, big2, hdr2, insts2, ends2, binds2, out2        \* the prefix
vars == <<run, phase, pos, big, hdr, insts, ends, binds, out, phase2, pos2, big2, hdr2, insts2, ends2, binds2, out2>>

(* A run: the words, the bytes, the bytes of the prefix. *)
InA(r) == r[2]
InB(r) == r[3]
Sets(r) == <<"B", "A", "G">>
A == INSTANCE Reader WITH InputOf <- InA, SetsOf <- Sets
B == INSTANCE Reader WITH InputOf <- InB, SetsOf <- Sets, phase <- phase2, pos <- pos2, big <- big2, hdr <- hdr2,
                          insts <- insts2, ends <- ends2, binds <- binds2, out <- out2

ByteSeq(ws, o) ==
  FlattenSeq([k \in 1..Len(ws) |-> LET b == Bytes(ws[k]) IN IF o THEN <<b[4], b[3], b[2], b[1]>> ELSE b])
M == <<1827, 515>>   V == <<1, 0>>
Hdr == <<M, V, <<8, 1>>, <<0, 9>>, Zero>>
Start(ws, o) ==
  LET s == ByteSeq(ws, o) IN
  \E cut \in 0..3, n \in 0..Len(s) :
    LET whole == SubSeq(s, 1, Len(s) - cut) IN
    /\ n <= Len(whole)
    /\ LET r == <<ws, whole, SubSeq(whole, 1, n)>> IN A!ReaderInit(r) /\ B!ReaderInit(r)

BadHeaders == {<<<<1827, 516>>, V, Zero, Zero, Zero>>, <<M, <<1, 1>>, Zero, Zero, Zero>>, <<M, V, Zero, Zero, <<0, 1>>>>, Hdr}
MixWords == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<1, 56>>, <<2, 19>>, <<3, 5>>, <<4, 11>>, <<5, 12>>, <<98, 11860>>, <<1, 400>>}
Init == \/ \E h \in BadHeaders, o \in BOOLEAN : Start(h, o)
        \/ \E k \in 1..Body, o \in BOOLEAN : \E s \in [1..k -> MixWords] : Start(Hdr \o s, o)
Next == \/ phase # "done" /\ A!ReaderNext /\ UNCHANGED <<phase2, pos2, big2, hdr2, insts2, ends2, binds2, out2>>
        \/ phase = "done" /\ phase2 # "done" /\ B!ReaderNext /\ UNCHANGED <<phase, pos, big, hdr, insts, ends, binds, out>>
        \/ phase = "done" /\ phase2 = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Done == phase = "done" /\ phase2 = "done"
Law == Done =>
  LET n == Len(InB(run))  want == A!PrefixOutcome(n) IN
  IF out2 = <<"ok">> THEN /\ want = "ok:" \o ToString(Len(insts2))
                          /\ IsPrefix(insts2, insts) /\ IsPrefix(ends2, ends) /\ hdr2 = hdr
                     ELSE want = out2[1] /\ (out2[1] = out[1] /\ ~A!Truncated(out) => out2 = out /\ insts2 = insts)
(* The reader is a machine as in PrefixProof: what an instruction gives depends on what stands before it alone, so that *)
(* two readers at one place of one input, one with more input than the other, have the same state there.              *)
Reduced == phase # "done" \/ phase2 = "done" \/ ends2 = <<>> \/
             (IsPrefix(insts2, insts) /\ IsPrefix(ends2, ends) /\ big2 = big /\ hdr2 = hdr)
Inv == Law /\ Reduced /\ A!Framing /\ B!Framing
=============================================================================
