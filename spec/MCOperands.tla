---------------------------- MODULE MCOperands ----------------------------
(* All short scripts over all short lists of words. *)
EXTENDS Operands
CONSTANT MaxWords, MaxSteps
Ws == {Zero, <<0, 1>>, <<0, 65>>, <<16705, 16961>>, <<65535, 65535>>}
Kinds == {<<"word", "">>, <<"u32", "">>, <<"str", "">>, <<"enum", "Dim">>, <<"mask", "LoopControl">>, <<"pair", "">>, <<"comp", "Decoration">>}
Steps == {<<h, k[1], k[2]>> : h \in {"one", "opt", "all"}, k \in Kinds} \cup {<<"fail", "InvalidString">>, <<"fail", "UnknownOp", "1", "2">>}
MCWords(r) == r[1]
MCScript(r) == r[2]
Init == \E n \in 0..MaxWords, m \in 0..MaxSteps : \E ws \in [1..n -> Ws], sc \in [1..m -> Steps] : OInit(<<ws, sc>>)
Done == oout # <<>> /\ UNCHANGED ovars
Spec == Init /\ [][ONext \/ Done]_ovars
(* Taking all is taking one again and again. *)
AllIsMany ==
  \A ws \in UNION {[1..n -> Ws] : n \in 0..3} : \A k \in Kinds :
    LET d == Take("all", k, ws) IN
    Good(d) => d.r = <<>> /\ (ws # <<>> => LET one == Take("one", k, ws)  rest == Take("all", k, one.r) IN
                                          Good(one) /\ Good(rest) /\ d.v = one.v \o rest.v)
ASSUME AllIsMany
Inv == Suffix /\ AllTaken
=============================================================================
