------------------------------- MODULE Encode -------------------------------
(* How an instruction is spelled in words, stated without the decoder: which  *)
(* words a field takes and what they have to be.                              *)
EXTENDS Decode

(* ---- the tables name everything once ---- *)
Injective(f) == \A x, y \in DOMAIN f : f[x] = f[y] => x = y
TablesOK ==
  /\ \A e \in DOMAIN EnumVal : Injective(EnumVal[e])
  /\ \A m \in DOMAIN MaskBits : Injective(MaskBits[m])
  /\ \A a, b \in DOMAIN Ops : Ops[a].name = Ops[b].name => a = b
  /\ Injective(Unsupported) /\ DOMAIN Unsupported \cap DOMAIN Ops = {}
  /\ \A a \in DOMAIN Ops : FieldsOf[Ops[a].name] = Ops[a].f
  /\ \A l \in DOMAIN SourceLanguages : SourceLanguages[l] # "Other"
  /\ Injective(SourceLanguages) /\ Injective(Tools) /\ Injective(GlslOps)
  /\ \A e \in DOMAIN EnumArgs : DOMAIN EnumArgs[e] \subseteq {EnumVal[e][n] : n \in DOMAIN EnumVal[e]}

(* ---- spelling: the number of words a field takes, 0 or more, if the words  *)
(* in front are its spelling; Wrong otherwise ----                            *)
Wrong == 99999
SpNumber(v, ws) == IF ws # <<>> /\ Len(v) = 1 /\ Dec(ws[1]) = v[1] THEN 1 ELSE Wrong
SpCode(table, v, ws) ==
  IF ws # <<>> /\ Len(v) = 1 /\ \E n \in DOMAIN table : ws[1] = <<0, n>> /\ table[n] = v[1] THEN 1 ELSE Wrong
SpString(v, ws) ==      \* all bytes, then a zero byte; what follows in that word is free
  LET n == Len(v)  k == (n \div 4) + 1
      at(i) == Bytes(ws[(i \div 4) + 1])[(i % 4) + 1]
  IN IF Len(ws) >= k /\ (\A i \in 0..(n - 1) : Hex(at(i)) = v[i + 1] /\ at(i) # 0) /\ at(n) = 0 THEN k ELSE Wrong
SpNumbers(v, ws) == IF Len(ws) >= Len(v) /\ \A i \in 1..Len(v) : Dec(ws[i]) = v[i] THEN Len(v) ELSE Wrong
FlagSum(bits, fl) ==
  LET val(f) == Pow2(SelectInSeq(bits, LAMBDA b : b = f) - 1) IN FoldLeft(LAMBDA n, f : n + val(f), 0, fl)
SpMask(name, v, ws) ==
  LET k == SelectInSeq(v, LAMBDA f : f = "DependencyLength")
      fl == IF k = 0 THEN v ELSE SubSeq(v, 1, k)
      more == IF k = 0 THEN <<>> ELSE SubSeq(v, k + 1, Len(v))
  IN IF /\ Len(ws) >= 1 + Len(more) /\ (k = 0 \/ Len(more) = 1)
        /\ \A i \in 1..Len(fl) : SelectInSeq(MaskBits[name], LAMBDA b : b = fl[i]) > 0
        /\ ws[1] = <<0, FlagSum(MaskBits[name], fl)>>
        /\ SpNumbers(more, Tail(ws)) = Len(more)
     THEN 1 + Len(more) ELSE Wrong
SpComp(name, v, ws) ==
  LET head == SpCode(EnumVal[name], <<v[1]>>, ws) IN
  IF head = Wrong THEN Wrong
  ELSE IF v[1] \notin DOMAIN EnumArgs[name] THEN IF Len(v) = 1 THEN 1 ELSE Wrong
  ELSE LET ks == EnumArgs[name][v[1]]  rest == Tail(ws) IN
       IF ks[1][1] = "str"       \* a name, then how it is linked; the value has that first
       THEN LET n == SpString(SubSeq(v, 3, Len(v)), rest) IN
            IF n = Wrong THEN Wrong
            ELSE IF SpCode(EnumVal[ks[2][2]], <<v[2]>>, SubSeq(rest, n + 1, Len(rest))) = 1 THEN n + 2 ELSE Wrong
       ELSE IF ks[1][1] = "enum" THEN IF SpCode(EnumVal[ks[1][2]], Tail(v), rest) = 1 THEN 2 ELSE Wrong
       ELSE IF ks[1][1] = "mask" THEN LET n == SpMask(ks[1][2], Tail(v), rest) IN IF n = Wrong THEN Wrong ELSE n + 1
       ELSE IF Len(v) = Len(ks) + 1 /\ SpNumbers(Tail(v), rest) = Len(ks) THEN Len(ks) + 1 ELSE Wrong
SpLanguage(v, ws) ==
  IF v[1] = "Other" THEN IF ~(ws[1][1] = 0 /\ ws[1][2] \in DOMAIN SourceLanguages) THEN SpNumber(Tail(v), ws) ELSE Wrong
  ELSE SpCode(SourceLanguages, v, ws)
SpField(kind, v, ws) ==
  CASE kind[1] \in {"id", "res", "u32", "ver", "member"} -> SpNumber(v, ws)
    [] kind[1] = "str" -> SpString(v, ws)
    [] kind[1] = "optid" -> IF v = <<>> THEN 0 ELSE SpNumber(v, ws)
    [] kind[1] = "optstr" -> IF v = <<>> THEN 0 ELSE SpString(Tail(v), ws)
    [] kind[1] \in {"vecid", "vecu32", "phi", "weights"} -> SpNumbers(v, ws)
    [] kind[1] = "enum" -> SpCode(EnumVal[kind[2]], v, ws)
    [] kind[1] = "optenum" -> IF v = <<>> THEN 0 ELSE SpCode(EnumVal[kind[2]], v, ws)
    [] kind[1] = "mask" -> SpMask(kind[2], v, ws)
    [] kind[1] = "optmask" -> IF v = <<>> THEN 0 ELSE SpMask(kind[2], Tail(v), ws)
    [] kind[1] = "comp" -> SpComp(kind[2], v, ws)
    [] kind[1] = "srclang" -> SpLanguage(v, ws)
    [] kind[1] = "ext" ->     \* a set, what it calls the instruction, its operands
         IF v[1] = "G" THEN IF SpCode(GlslOps, <<v[2]>>, ws) = 1 /\ SpNumbers(SubSeq(v, 3, 3), Tail(ws)) = 1 THEN 2 ELSE Wrong
         ELSE SpNumbers(Tail(v), ws)
RECURSIVE SpFields(_, _, _)
SpFields(kinds, i, ws) ==
  IF kinds = <<>> THEN ws = <<>>
  ELSE LET n == SpField(kinds[1], i[1], ws) IN
       n # Wrong /\ n <= Len(ws) /\ SpFields(Tail(kinds), Tail(i), SubSeq(ws, n + 1, Len(ws)))
(* ws are all the words of the instruction, the first with opcode and count. *)
Spells(i, ws) ==
  /\ ws # <<>> /\ ws[1][2] \in DOMAIN Ops /\ Ops[ws[1][2]].name = i[1][1]
  /\ ws[1][1] = Len(ws)
  /\ Len(i) = 1 + Len(FieldsOf[i[1][1]])
  /\ SpFields(FieldsOf[i[1][1]], Tail(i), Tail(ws))
=============================================================================
