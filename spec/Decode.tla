------------------------------- MODULE Decode -------------------------------
(* Operand words to instruction fields.  An instruction is a sequence whose   *)
(* first element is <<name>> and whose other elements are its fields in wire  *)
(* order; every field is a sequence of strings:                               *)
(*   ids and numbers  <<"42">>           lists      <<"1", "2">>               *)
(*   optional         <<>> or <<"1">>    strings    <<"6d", "61">> (bytes)     *)
(*   optional string  <<>> or <<"some", bytes...>>                             *)
(*   enumerants       <<"Flat">>, <<"LocalSize", "1", "2", "3">>               *)
(*   masks            <<"Unroll", "DontUnroll">>                               *)
EXTENDS Words, Grammar

Ok(v, r) == [e |-> <<>>, v |-> v, r |-> r]
Err(e) == [e |-> e, v |-> <<>>, r |-> <<>>]
TooShort == Err(<<"UnexpectedEndOfInstruction">>)
Good(d) == d.e = <<>>

(* ---- strings ---- *)
HasZero(w) == LET b == Bytes(w) IN b[1] = 0 \/ b[2] = 0 \/ b[3] = 0 \/ b[4] = 0

Utf8Step(st, b) ==
  IF st[1] = 9 THEN st
  ELSE IF st[1] = 0 THEN
         IF b < 128 THEN st
         ELSE IF b \in 194..223 THEN <<1, 128, 191>>
         ELSE IF b = 224 THEN <<2, 160, 191>>
         ELSE IF b = 237 THEN <<2, 128, 159>>
         ELSE IF b \in 225..239 THEN <<2, 128, 191>>
         ELSE IF b = 240 THEN <<3, 144, 191>>
         ELSE IF b \in 241..243 THEN <<3, 128, 191>>
         ELSE IF b = 244 THEN <<3, 128, 143>>
         ELSE <<9, 0, 0>>
  ELSE IF st[2] <= b /\ b <= st[3] THEN <<st[1] - 1, 128, 191>> ELSE <<9, 0, 0>>
ValidUtf8(bs) == FoldLeft(Utf8Step, <<0, 0, 0>>, bs)[1] = 0

Str(ws) ==
  LET k == SelectInSeq(ws, HasZero) IN
  IF k = 0 THEN TooShort
  ELSE LET z   == SelectInSeq(Bytes(ws[k]), LAMBDA b : b = 0)
           bs  == [i \in 1..(4 * (k - 1) + z - 1) |-> Bytes(ws[(i - 1) \div 4 + 1])[((i - 1) % 4) + 1]]
       IN IF ValidUtf8(bs)
          THEN Ok([i \in 1..Len(bs) |-> Hex(bs[i])], SubSeq(ws, k + 1, Len(ws)))
          ELSE Err(<<"InvalidString">>)

(* ---- scalars, enumerants, masks ---- *)
Number(ws) == IF ws = <<>> THEN TooShort ELSE Ok(<<Dec(Head(ws))>>, Tail(ws))

Enum(name, ws) ==
  IF ws = <<>> THEN TooShort
  ELSE LET w == Head(ws) IN
       IF IsSmall(w) /\ Small(w) \in DOMAIN EnumVal[name]
       THEN Ok(<<EnumVal[name][Small(w)]>>, Tail(ws))
       ELSE Err(<<"Unknown" \o name, Dec(w)>>)

Language(ws) ==
  IF ws = <<>> THEN TooShort
  ELSE LET w == Head(ws) IN
       IF IsSmall(w) /\ Small(w) \in DOMAIN SourceLanguages
       THEN Ok(<<SourceLanguages[Small(w)]>>, Tail(ws))
       ELSE Ok(<<"Other", Dec(w)>>, Tail(ws))

MaskFlags(name, n) ==
  LET bits == MaskBits[name]
      on == SelectSeq([i \in 1..Len(bits) |-> i], LAMBDA i : BitSet(n, i - 1))
  IN [j \in 1..Len(on) |-> bits[on[j]]]

Mask(name, ws) ==
  IF ws = <<>> THEN TooShort
  ELSE LET w == Head(ws) IN
       IF ~IsSmall(w) \/ Small(w) >= Pow2(Len(MaskBits[name]))
       THEN Err(<<"Unknown" \o name, Dec(w)>>)
       ELSE LET fl == MaskFlags(name, Small(w)) IN
            IF fl # <<>> /\ fl[Len(fl)] = "DependencyLength"
            THEN IF Len(ws) < 2 THEN TooShort
                 ELSE Ok(Append(fl, Dec(ws[2])), SubSeq(ws, 3, Len(ws)))
            ELSE Ok(fl, Tail(ws))

Simple(kind, ws) ==
  CASE kind[1] \in {"id", "u32"} -> Number(ws)
    [] kind[1] = "enum" -> Enum(kind[2], ws)
    [] kind[1] = "mask" -> Mask(kind[2], ws)
    [] kind[1] = "str" -> Str(ws)

RECURSIVE Args(_, _, _)
Args(kinds, ws, acc) ==
  IF kinds = <<>> THEN Ok(acc, ws)
  ELSE LET d == Simple(Head(kinds), ws) IN
       IF Good(d)
       THEN \* a string operand is written last, after the other operands
            Args(Tail(kinds), d.r, IF Head(kinds)[1] = "enum" THEN d.v \o acc ELSE acc \o d.v)
       ELSE d

Comp(name, ws) ==
  LET d == Enum(name, ws) IN
  IF ~Good(d) THEN d
  ELSE IF d.v[1] \notin DOMAIN EnumArgs[name] THEN d
  ELSE LET a == Args(EnumArgs[name][d.v[1]], d.r, <<>>) IN
       IF Good(a) THEN Ok(d.v \o a.v, a.r) ELSE a

AllWords(ws) == Ok([i \in 1..Len(ws) |-> Dec(ws[i])], <<>>)

Field(kind, ws) ==
  CASE kind[1] \in {"id", "res", "u32", "ver", "member"} -> Number(ws)
    [] kind[1] = "str" -> Str(ws)
    [] kind[1] = "optid" -> IF ws = <<>> THEN Ok(<<>>, ws) ELSE Number(ws)
    [] kind[1] = "optstr" -> IF ws = <<>> THEN Ok(<<>>, ws)
                             ELSE LET d == Str(ws) IN IF Good(d) THEN Ok(<<"some">> \o d.v, d.r) ELSE d
    [] kind[1] \in {"vecid", "vecu32"} -> AllWords(ws)
    [] kind[1] = "phi" -> IF Len(ws) % 2 = 1 THEN TooShort ELSE AllWords(ws)
    [] kind[1] = "weights" -> IF ws = <<>> THEN Ok(<<>>, ws)
                              ELSE IF Len(ws) = 1 THEN TooShort
                              ELSE Ok(<<Dec(ws[1]), Dec(ws[2])>>, SubSeq(ws, 3, Len(ws)))
    [] kind[1] = "enum" -> Enum(kind[2], ws)
    [] kind[1] = "optenum" -> IF ws = <<>> THEN Ok(<<>>, ws) ELSE Enum(kind[2], ws)
    [] kind[1] = "mask" -> Mask(kind[2], ws)
    [] kind[1] = "optmask" -> IF ws = <<>> THEN Ok(<<>>, ws)
                              ELSE LET d == Mask(kind[2], ws) IN IF Good(d) THEN Ok(<<"some">> \o d.v, d.r) ELSE d
    [] kind[1] = "comp" -> Comp(kind[2], ws)
    [] kind[1] = "srclang" -> Language(ws)

RECURSIVE Fields(_, _, _)
Fields(kinds, ws, acc) ==
  IF kinds = <<>> THEN Ok(acc, ws)
  ELSE LET d == Field(Head(kinds), ws) IN
       IF Good(d) THEN Fields(Tail(kinds), d.r, Append(acc, d.v)) ELSE d

(* ---- extended instructions: what the supplied sets decode ---- *)
(* "G" is the library's own GLSL set; the others are the harness's: below 100 *)
(* an instruction takes as many words as its number, below 200 all it is given.*)
ExtBody(set, n, ws) ==
  LET bad == Err(<<"UnknownExtInstOp", SetText[set], Dec(n)>>) IN
  IF set = "G"
  THEN IF IsSmall(n) /\ Small(n) \in DOMAIN GlslOps
       THEN IF ws = <<>> THEN TooShort ELSE Ok(<<"G", GlslOps[Small(n)], Dec(ws[1])>>, Tail(ws))
       ELSE bad
  ELSE IF ~IsSmall(n) \/ Small(n) >= 200 THEN bad
  ELSE LET k == IF Small(n) < 100 THEN Small(n) ELSE Len(ws) IN
       IF k > Len(ws) THEN TooShort
       ELSE Ok(<<set, Dec(n)>> \o [i \in 1..k |-> Dec(ws[i])], SubSeq(ws, k + 1, Len(ws)))

(* One instruction: opcode, operand words, supplied sets, bound imports.       *)
(* Result: e (error or <<>>), i (the instruction), b (bound imports).          *)
Fail(e, binds) == [e |-> e, i |-> <<>>, b |-> binds]
Finish(name, d, binds) ==
  IF ~Good(d) THEN Fail(d.e, binds)
  ELSE IF d.r # <<>> THEN Fail(<<"InstructionHadExcessData">>, binds)
  ELSE [e |-> <<>>, i |-> <<<<name>>>> \o d.v, b |-> binds]

Import(ws, sets, binds) ==
  LET d == Fields(<<<<"res", "">>, <<"str", "">>>>, ws, <<>>) IN
  IF ~Good(d) THEN Fail(d.e, binds)
  ELSE LET k == SelectInSeq(sets, LAMBDA s : SetName[s] = d.v[2]) IN
       IF k = 0 THEN Fail(<<"UnknownInstSet">> \o d.v[2], binds)
       ELSE IF d.v[1][1] \in DOMAIN binds THEN Fail(<<"DuplicateResultId", d.v[1][1]>>, binds)
       ELSE Finish("OpExtInstImport", d, (d.v[1][1] :> sets[k]) @@ binds)

ExtInst(ws, binds) ==
  IF Len(ws) < 4 THEN Fail(<<"UnexpectedEndOfInstruction">>, binds)
  ELSE IF Dec(ws[3]) \notin DOMAIN binds THEN Fail(<<"UnknownInstSetId", Dec(ws[3])>>, binds)
  ELSE LET d == ExtBody(binds[Dec(ws[3])], ws[4], SubSeq(ws, 5, Len(ws))) IN
       Finish("OpExtInst",
              IF Good(d) THEN Ok(<<<<Dec(ws[1])>>, <<Dec(ws[2])>>, <<Dec(ws[3])>>, d.v>>, d.r) ELSE d,
              binds)

Instruction(op, ws, sets, binds) ==
  IF op \in DOMAIN Unsupported THEN Fail(<<"UnimplementedOp", Unsupported[op]>>, binds)
  ELSE IF op \notin DOMAIN Ops THEN Fail(<<"UnknownOp", ToString(op), ToString(Len(ws) + 1)>>, binds)
  ELSE IF op = 11 THEN Import(ws, sets, binds)
  ELSE IF op = 12 THEN ExtInst(ws, binds)
  ELSE Finish(Ops[op].name, Fields(Ops[op].f, ws, <<>>), binds)
=============================================================================
