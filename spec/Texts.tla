-------------------------------- MODULE Texts --------------------------------
(* The text of operands, instructions and headers.                            *)
EXTENDS Grammar, SequencesExt

(* All strings of a sequence in one; halves first, so that long texts stay cheap. *)
RECURSIVE CatOf(_, _, _)
CatOf(ss, a, b) == IF a > b THEN "" ELSE IF a = b THEN ss[a]
                   ELSE LET m == (a + b) \div 2 IN CatOf(ss, a, m) \o CatOf(ss, m + 1, b)
Cat(ss) == CatOf(ss, 1, Len(ss))
Join(ss, sep) == IF ss = <<>> THEN "" ELSE Cat(<<ss[1]>> \o FlattenSeq([k \in 1..(Len(ss) - 1) |-> <<sep, ss[k + 1]>>]))
RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN "" ELSE " " \o Blanks(n - 1)
RightAligned(s, n) == Blanks(n - Len(s)) \o s

NewLine == Chr["0a"]
WholeText(ls) == Cat([k \in 1..Len(ls) |-> ls[k] \o NewLine])

(* ---- destinations that may fail ---- *)
StartsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
(* Either everything arrived and nothing was refused, or a failure was reported and what arrived is a beginning. *)
DeliveredOK(d, text) == IF d.f = 0 THEN d.k = "ok" /\ d.t = text ELSE d.k = "err" /\ StartsWith(text, d.t)

(* ---- operands ---- *)
IdText(n) == "%" \o n
Quoted(bs) == "\"" \o Cat([k \in 1..Len(bs) |-> Chr[bs[k]]]) \o "\""
(* Flags by name, lowest bit first; a flag with a number shows it in brackets. *)
FlagsText(name, f) ==
  IF f = <<>> THEN "None"
  ELSE LET flags == SelectSeq(f, LAMBDA x : x \in ToSet(MaskBits[name]))
           rest == SubSeq(f, Len(flags) + 1, Len(f))
       IN Join([k \in 1..Len(flags) |-> IF k = Len(flags) /\ rest # <<>> THEN flags[k] \o "(" \o rest[1] \o ")" ELSE flags[k]], " | ")

(* The words of an operand; an operand that is absent has none. *)
RECURSIVE Shown(_, _)
CompShown(name, f) ==
  LET v == f[1]
      ks == IF v \in DOMAIN EnumArgs[name] THEN EnumArgs[name][v] ELSE <<>>
      rest == Tail(f) IN
  <<EnumText[name][v]>> \o
  (IF v = "LinkageAttributes" THEN <<Quoted(Tail(rest)), EnumText.LinkageType[rest[1]]>>
   ELSE IF ks # <<>> /\ ks[1][1] = "mask" THEN <<FlagsText(ks[1][2], rest)>>
   ELSE FlattenSeq([k \in 1..Len(ks) |-> Shown(ks[k], <<rest[k]>>)]))
ExtShown(f) ==
  IF f[1] \in {"G", "TW"} THEN <<f[2]>> \o <<IdText(f[3])>> ELSE <<f[1] \o f[2]>> \o SubSeq(f, 3, Len(f))
Shown(k, f) ==
  CASE k[1] \in {"id", "optid", "vecid", "phi"} -> [j \in 1..Len(f) |-> IdText(f[j])]
    [] k[1] \in {"u32", "ver", "member", "vecu32", "weights", "line", "column", "vecmember"} -> f
    [] k[1] = "str" -> <<Quoted(f)>>
    [] k[1] = "optstr" -> IF f = <<>> THEN <<>> ELSE <<Quoted(Tail(f))>>
    [] k[1] \in {"enum", "optenum"} -> [j \in 1..Len(f) |-> EnumText[k[2]][f[j]]]
    [] k[1] = "mask" -> <<FlagsText(k[2], f)>>
    [] k[1] = "optmask" -> IF f = <<>> THEN <<>> ELSE <<FlagsText(k[2], Tail(f))>>
    [] k[1] = "srclang" -> IF f[1] = "Other" THEN <<"Unknown(" \o f[2] \o ")">> ELSE <<SourceText[f[1]]>>
    [] k[1] = "comp" -> CompShown(k[2], f)
    [] k[1] = "ext" -> ExtShown(f)
    [] k[1] = "res" -> <<>>      \* shown before the name

(* ---- instructions ---- *)
LineOf(i) ==
  LET ks == FieldsOf[i[1][1]]
      r == {k \in 1..Len(ks) : ks[k][1] = "res"}
      lead == IF r = {} THEN Blanks(15) ELSE RightAligned(IdText(i[(CHOOSE k \in r : TRUE) + 1][1]), 12) \o " = "
      ops == FlattenSeq([k \in 1..Len(ks) |-> Shown(ks[k], i[k + 1])])
  IN lead \o i[1][1] \o Cat([k \in 1..Len(ops) |-> " " \o ops[k]])

(* ---- modules ---- *)
GeneratorText(t) == IF t[1] = "Other" THEN "Unknown" ELSE ToolText[t[1]]
HeaderLines(h) ==
  <<"; SPIR-V", "; Version: " \o h[1][1] \o "." \o h[1][2], "; Generator: " \o GeneratorText(h[2]) \o "; " \o h[3][1],
    "; Bound: " \o h[4][1], "; Schema: 0">>
=============================================================================
