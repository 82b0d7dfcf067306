-------------------------------- MODULE Epoch --------------------------------
(***************************************************************************)
(* The arithmetic on byte sequences is that of the integers: for every     *)
(* 64-bit count and every fraction of a second, not for samples.  Checked   *)
(* by Apalache, whose integers are unbounded:                              *)
(*   apalache-mc check --inv=Inv --length=0 Epoch.tla                      *)
(***************************************************************************)
EXTENDS ByteNumbers
VARIABLES
  \* @type: Seq(Int);
  b,
  \* @type: Int;
  a
\* @type: Seq(Int) => Int;
Unsigned(x) == LET \* @type: (Int, Int) => Int;
                   F(acc, y) == acc * 256 + y IN FoldLeft(F, 0, x)
P64 == 18446744073709551616
P80 == 1208925819614629174706176
\* @type: (Seq(Int), Int) => Int;
Signed(x, top) == IF x[1] >= 128 THEN Unsigned(x) - top ELSE Unsigned(x)
Init == /\ \E b1, b2, b3, b4, b5, b6, b7, b8 \in 0..255 : b = <<b1, b2, b3, b4, b5, b6, b7, b8>>
        /\ a \in 0..1999
Next == UNCHANGED <<b, a>>
(* Seconds and milliseconds make the count they should. *)
Counts == LET r == MulAdd(Widen2(b), 1000, a) IN Len(r) = 10 /\ Signed(r, P80) = Signed(b, P64) * 1000 + a
(* A count falls into seconds and a fraction that is never negative. *)
Falls == LET r == FloorDiv(b, 1000) IN r[2] >= 0 /\ r[2] < 1000 /\ Signed(b, P64) = 1000 * Signed(r[1], P64) + r[2]
(* The calendar's bounds. *)
Bounds == InCalendar(b) = (-62135596800000 <= Signed(b, P64) /\ Signed(b, P64) <= 253402300799999)
=============================================================================
