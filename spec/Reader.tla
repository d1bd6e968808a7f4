------------------------------- MODULE Reader -------------------------------
(* Reading a module: a machine over a byte stream, one action per header word *)
(* and one per instruction.                                                   *)
EXTENDS Decode

CONSTANTS InputOf(_),   \* the bytes (0..255) of a run
          SetsOf(_)     \* the extended instruction sets supplied (keys of SetName)

VARIABLES run,     \* what is being read
          phase,   \* "magic" "version" "generator" "bound" "schema" "body" "done"
          pos,     \* bytes consumed
          big,     \* the other byte order
          hdr,     \* header fields read so far
          insts,   \* instructions read
          ends,    \* position after the header and after each instruction
          binds,   \* import id -> set
          out      \* <<>>, <<"ok">> or the error

rvars == <<run, phase, pos, big, hdr, insts, ends, binds, out>>

Left == Len(InputOf(run)) - pos
WordAt(p) == LET s == InputOf(run) IN
             IF big THEN BE(s[p + 1], s[p + 2], s[p + 3], s[p + 4]) ELSE LE(s[p + 1], s[p + 2], s[p + 3], s[p + 4])
Short(n) == IF n % 4 = 0 THEN <<"UnexpectedEndOfStream">> ELSE <<"UnexpectedStreamAlignment">>

ReaderInit(r) ==
  /\ run = r /\ phase = "magic" /\ pos = 0 /\ big = FALSE /\ hdr = <<>>
  /\ insts = <<>> /\ ends = <<>> /\ binds = <<>> /\ out = <<>>
ReaderRestart(r) ==
  /\ run' = r /\ phase' = "magic" /\ pos' = 0 /\ big' = FALSE /\ hdr' = <<>>
  /\ insts' = <<>> /\ ends' = <<>> /\ binds' = <<>> /\ out' = <<>>

Stop(e) == phase' = "done" /\ out' = e
HeaderWord(ph, next, ok, e, fields) ==
  /\ phase = ph
  /\ IF Left < 4 THEN Stop(Short(Left)) /\ UNCHANGED <<pos, hdr, ends>>
     ELSE /\ pos' = pos + 4
          /\ IF ok THEN /\ phase' = next /\ out' = out
                        /\ hdr' = hdr \o fields
                        /\ ends' = IF next = "body" THEN <<pos + 4>> ELSE ends
                   ELSE Stop(e) /\ UNCHANGED <<hdr, ends>>
  /\ UNCHANGED <<run, insts, binds>>

W == IF Left < 4 THEN Zero ELSE WordAt(pos)

Magic == <<1827, 515>>        \* 0x07230203
ReadMagic ==
  /\ HeaderWord("magic", "version", W = Magic \/ Swap(W) = Magic, <<"BadMagic">>, <<>>)
  /\ big' = (Left >= 4 /\ W # Magic /\ Swap(W) = Magic)
ReadVersion ==
  /\ HeaderWord("version", "generator", W = <<1, 0>>,
       <<"UnknownVersionBytes", ToString(Bytes(W)[4]), ToString(Bytes(W)[3]), ToString(Bytes(W)[2]), ToString(Bytes(W)[1])>>,
       <<<<"1", "0">>>>)
  /\ UNCHANGED big
ReadGenerator ==
  /\ HeaderWord("generator", "bound", TRUE, <<>>,
       <<IF W[1] \in DOMAIN Tools THEN <<Tools[W[1]]>> ELSE <<"Other", ToString(W[1])>>, <<ToString(W[2])>>>>)
  /\ UNCHANGED big
ReadBound ==
  /\ HeaderWord("bound", "schema", TRUE, <<>>, <<<<Dec(W)>>>>)
  /\ UNCHANGED big
ReadSchema ==
  /\ HeaderWord("schema", "body", W = Zero, <<"UnknownReservedSchema">>, <<>>)
  /\ UNCHANGED big

Words(p, n) == [i \in 1..n |-> WordAt(p + 4 * (i - 1))]

ReadInstruction ==
  /\ phase = "body" /\ Left > 0
  /\ UNCHANGED <<run, big, hdr>>
  /\ LET wc == W[1]  op == W[2] IN
     IF Left < 4 THEN Stop(Short(Left)) /\ UNCHANGED <<pos, insts, ends, binds>>
     ELSE IF wc = 0 THEN Stop(<<"WrongWordCountForOp">>) /\ pos' = pos + 4 /\ UNCHANGED <<insts, ends, binds>>
     ELSE IF Left < 4 * wc THEN Stop(Short(Left)) /\ UNCHANGED <<pos, insts, ends, binds>>
     ELSE LET d == Instruction(op, Words(pos + 4, wc - 1), SetsOf(run), binds) IN
          /\ pos' = pos + 4 * wc
          /\ binds' = d.b
          /\ IF d.e = <<>>
             THEN insts' = Append(insts, d.i) /\ ends' = Append(ends, pos + 4 * wc) /\ UNCHANGED <<phase, out>>
             ELSE Stop(d.e) /\ UNCHANGED <<insts, ends>>

EndOfInput ==
  /\ phase = "body" /\ Left = 0
  /\ Stop(<<"ok">>)
  /\ UNCHANGED <<run, pos, big, hdr, insts, ends, binds>>

ReaderNext == \/ ReadMagic \/ ReadVersion \/ ReadGenerator \/ ReadBound \/ ReadSchema
              \/ ReadInstruction \/ EndOfInput

(* ---- consequences observed on prefixes of the input ---- *)
Truncated(e) == e[1] \in {"UnexpectedEndOfStream", "UnexpectedStreamAlignment"}
(* The outcome of reading only the first n bytes, from the completed run. *)
PrefixOutcome(n) ==
  LET k == SelectInSeq(ends, LAMBDA p : p = n) IN
  IF k > 0 THEN "ok:" \o ToString(k - 1)
  ELSE IF out[1] # "ok" /\ ~Truncated(out) /\ n >= pos THEN out[1]
  ELSE Short(n)[1]

(* ---- invariants of the machine ---- *)
ReaderTypeOK ==
  /\ phase \in {"magic", "version", "generator", "bound", "schema", "body", "done"}
  /\ pos \in 0..Len(InputOf(run)) /\ pos % 4 = 0
  /\ (phase = "done") = (out # <<>>)
Framing ==   \* every instruction accounts for its own words; nothing between them
  /\ phase = "body" => ends[Len(ends)] = pos
  /\ ends # <<>> => Len(ends) = Len(insts) + 1 /\ ends[1] = 20
  /\ \A k \in 2..Len(ends) : ends[k] - ends[k - 1] = 4 * WordAt(ends[k - 1])[1]
AcceptedWhole == out = <<"ok">> => pos = Len(InputOf(run))
=============================================================================
