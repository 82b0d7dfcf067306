----------------------------- MODULE ByteNumbers -----------------------------
(***************************************************************************)
(* Numbers as byte sequences, big-endian, two's complement where signed,   *)
(* because TLC's integers have 32 bits and the wire's have 64.  Module      *)
(* Epoch relates them to the integers.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* b * m + a, in as many bytes as b has, for 0 <= m, a < 2^22.             *)
\* @type: (Seq(Int), Int, Int) => Seq(Int);
MulAdd(b, m, a) ==
  LET \* @type: (Int, <<Seq(Int), Int>>) => <<Seq(Int), Int>>;
      Digit(x, acc) == LET y == x * m + acc[2] IN << <<y % 256>> \o acc[1], y \div 256 >>
  IN  FoldRight(Digit, b, <<(<<>>), a>>)[1]
(* Two bytes longer, the number the same. *)
\* @type: Seq(Int) => Seq(Int);
Widen2(b) == LET s == IF b[1] >= 128 THEN 255 ELSE 0 IN <<s, s>> \o b
(* Unsigned comparison of sequences of one length. *)
\* @type: (Seq(Int), Seq(Int)) => Bool;
LeqBE(a, b) == \/ a = b
               \/ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in DOMAIN a : j < i => a[j] = b[j]
(* All bits turned around: -1 - b. *)
\* @type: Seq(Int) => Seq(Int);
Not(b) == LET \* @type: (Seq(Int), Int) => Seq(Int);
              Turn(acc, x) == Append(acc, 255 - x) IN FoldLeft(Turn, <<>>, b)
(* Quotient and remainder of an unsigned number, m < 2^22. *)
\* @type: (Seq(Int), Int) => <<Seq(Int), Int>>;
DivMod(b, m) ==
  LET \* @type: (<<Seq(Int), Int>>, Int) => <<Seq(Int), Int>>;
      Digit(acc, x) == LET y == acc[2] * 256 + x IN <<Append(acc[1], y \div m), y % m>>
  IN  FoldLeft(Digit, <<(<<>>), 0>>, b)
(* ... of a signed one, the remainder never negative. *)
\* @type: (Seq(Int), Int) => <<Seq(Int), Int>>;
FloorDiv(b, m) == IF b[1] >= 128 THEN LET r == DivMod(Not(b), m) IN <<Not(r[1]), m - 1 - r[2]>> ELSE DivMod(b, m)

(* Milliseconds from 0001-01-01T00:00:00.000Z to 9999-12-31T23:59:59.999Z.  *)
\* @type: Seq(Int) => Bool;
InCalendar(b) == IF b[1] < 128 THEN LeqBE(b, <<0, 0, 230, 119, 210, 31, 219, 255>>)
                 ELSE LeqBE(<<255, 255, 199, 124, 237, 211, 40, 0>>, b)
=============================================================================
