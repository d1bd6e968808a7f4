----------------------------- MODULE MCStruct -----------------------------
(* All structured programs to a size: the search finds exactly the program in *)
(* its blocks, and the chain executes like the blocks.                        *)
EXTENDS ControlFlow, Exec, Structured

CONSTANT Size
S(t, a, b) == [t |-> t, id |-> "", a |-> a, b |-> b, h |-> <<>>, w |-> <<>>]
Tabulate(f(_, _), n) ==   \* f(0..n) built bottom up: f(k, table of smaller ones)
  LET step[k \in 0..n] == IF k = 0 THEN <<f(0, <<>>)>> ELSE Append(step[k - 1], f(k, step[k - 1])) IN step[n]
(* table[k + 1] has the sequences with k statements in all *)
Stmts(k, tab) ==
  IF k = 1 THEN {S("atom", <<>>, <<>>), S("brk", <<>>, <<>>), S("cont", <<>>, <<>>), S("sel", <<>>, <<>>), S("loop", <<>>, <<>>)}
  ELSE {S("loop", q, <<>>) : q \in tab[k]}
       \cup UNION {{S("sel", q1, q2) : q1 \in tab[i + 1], q2 \in tab[k - i]} : i \in 0..(k - 1)}
Seqs(n, tab) == IF n = 0 THEN {<<>>}
                ELSE UNION {{<<s>> \o q : s \in Stmts(k, tab), q \in tab[n - k + 1]} : k \in 1..n}
Shapes == Tabulate(Seqs, Size)

(* Statements are numbered in order of writing; hints and weights are made from the number. *)
RECURSIVE Number(_, _)
Number(p, k) ==     \* <<numbered, next number>>
  IF p = <<>> THEN <<<<>>, k>>
  ELSE LET s == p[1]
           a == Number(s.a, k + 1)
           b == Number(s.b, a[2])
           r == Number(Tail(p), b[2])
           h == CASE s.t = "sel" -> IF k % 3 = 0 THEN <<>> ELSE IF k % 3 = 1 THEN <<"Flatten">> ELSE <<"DontFlatten">>
                  [] s.t = "loop" -> IF k % 2 = 0 THEN <<>> ELSE <<"Unroll">>
                  [] OTHER -> <<>>
           w == IF s.t \in {"sel", "brk", "cont"} /\ k % 2 = 0 THEN <<ToString(k), "7">> ELSE <<>>
       IN <<<<[s EXCEPT !.id = ToString(k), !.a = a[1], !.b = b[1], !.h = h, !.w = w]>> \o r[1], r[2]>>
Programs == {p \in {Number(Append(q, S("atom", <<>>, <<>>)), 1)[1] : q \in UNION {Shapes[k + 1] : k \in 0..Size}} : WellFormed(p)}
Cases == SetToSeq(Programs)
MCBlocks == [k \in 1..Len(Cases) |-> AsBlocks(FunctionBlocks(Cases[k]))]
MCBlocksOf(r) == MCBlocks[r]

Init == \E r \in 1..Len(Cases) : SearchInit(r)
Spec == Init /\ [][SearchNext]_cvars
Recovered == cmode = "done" => cout = <<"ok">> /\ ret[1] = ChainOf(Cases[crun])
Runs == cmode = "done" => Equivalent(MCBlocks[crun], ret[1]) /\ Carries(MCBlocks[crun], ret[1])
Encoded == cmode = "start" => Encodes(MCBlocks[crun], Cases[crun])
Inv == SearchTypeOK /\ Ends /\ Bounded /\ Recovered /\ Runs /\ Encoded
=============================================================================
