------------------------------- MODULE Words -------------------------------
(* 32-bit words.  TLC's integers are 32-bit signed, so a word is a pair      *)
(* <<high 16 bits, low 16 bits>>.                                            *)
EXTENDS Naturals, Sequences, TLC, SequencesExt

Half == 0..65535
Word == Half \X Half
Zero == <<0, 0>>

LE(a, b, c, d) == <<c + 256 * d, a + 256 * b>>   \* bytes in stream order
BE(a, b, c, d) == <<b + 256 * a, d + 256 * c>>

(* The bytes of a word, lowest-order byte first. *)
Bytes(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
(* The same bytes as they would be if the word had been stored the other way round. *)
Swap(w) == LET b == Bytes(w) IN LE(b[4], b[3], b[2], b[1])

IsSmall(w) == w[1] = 0
Small(w) == w[2]
Num(n) == <<n \div 65536, n % 65536>>

(* Decimal notation of a word. *)
RECURSIVE DecBig(_)
DecBig(w) ==
  IF w[1] < 32768 THEN ToString(w[1] * 65536 + w[2])
  ELSE LET qh == w[1] \div 10
           m  == (w[1] % 10) * 65536 + w[2]
           ql == m \div 10
       IN DecBig(<<qh, ql>>) \o ToString(m % 10)
Dec(w) == DecBig(w)

(* Bit k (0..15) of the low half; the high half is tested by IsSmall. *)
Pow2(k) == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>[k + 1]
BitSet(n, k) == (n \div Pow2(k)) % 2 = 1
=============================================================================
