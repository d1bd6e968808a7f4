----------------------------- MODULE TraceParts -----------------------------
(* Recorded pairs of operands, of parts of a block, of extended instructions  *)
(* and of generators, each by itself: what it holds, what it shows as, the    *)
(* names it tells, comparisons and copies.                                    *)
EXTENDS Texts, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE s
Bit(x) == IF x THEN 1 ELSE 0
(* An operand by itself shows as it does in an instruction. *)
PartText(kind, f) ==
  CASE kind[1] \in {"code", "branch"} -> LineOf(f)
    [] kind[1] = "ext" -> Join(ExtShown(f[5]), " ")
    [] kind[1] = "tool" -> ""
    [] kind[1] = "pair" -> Join(Shown(<<"phi", "">>, f), " ")
    [] kind[1] = "weightpair" -> Join(Shown(<<"weights", "">>, f), " ")
    [] OTHER -> Join(Shown(kind, f), " ")
(* What is projected from the value. *)
Held(kind, f) == CASE kind[1] \in {"code", "branch"} -> f [] kind[1] = "ext" -> <<f[5]>> [] OTHER -> <<f>>
Vendors == {"Khronos", "LunarG", "Valve", "Codeplay", "NVIDIA", "ARM", "Qualcomm", "AMD", "Intel"}
(* The names told: of the operation, or of the vendor and the tool. *)
NamesOK(kind, f, names) ==
  CASE kind[1] = "ext" -> f[5][1] \in {"G", "TW"} => names = f[5][2]
    [] kind[1] = "tool" -> IF f[1] = "Other" THEN names = <<>>
                           ELSE names # <<>> /\ names[1] \in Vendors /\ Join(names, " ") = GeneratorText(f)
    [] OTHER -> TRUE
Good(c) ==
  LET same == Held(c.kind, c.a) = Held(c.kind, c.b) IN
  /\ c.k = "ok"
  /\ c.pa = Held(c.kind, c.a) /\ c.pb = Held(c.kind, c.b)
  /\ c.ta = PartText(c.kind, c.a) /\ c.tb = PartText(c.kind, c.b)
  /\ NamesOK(c.kind, c.a, c.na) /\ NamesOK(c.kind, c.b, c.nb)
  /\ c.eq = Bit(same) /\ c.ne = Bit(~same) /\ c.sym = c.eq
  /\ c.refl = 1 /\ c.copy = 1
(* Different operands of one kind differ in their text, too (sets may share names, and so their instructions' texts). *)
TextsTell(c) == (Held(c.kind, c.a) # Held(c.kind, c.b) /\ c.kind[1] \notin {"ext", "tool", "code"}) => PartText(c.kind, c.a) # PartText(c.kind, c.b)
Judge(c) == IF Good(c) THEN TRUE ELSE PrintT(<<"MISMATCH", c.n, <<"C26">>, <<PartText(c.kind, c.a), PartText(c.kind, c.b)>>>>)
Init == s = 0
Next == /\ s < N /\ s' = s + 1
        /\ Judge(Trace[s + 1])
        /\ IF s + 1 = N THEN PrintT(<<"DONE", N>>) ELSE TRUE
Spec == Init /\ [][Next]_s
TraceInv == s > 0 => TextsTell(Trace[s])
=============================================================================
