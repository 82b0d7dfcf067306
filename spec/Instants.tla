------------------------------ MODULE Instants ------------------------------
(***************************************************************************)
(* Wire timestamps: a signed 64-bit count of milliseconds since the Unix   *)
(* epoch.  An instant is seconds (signed, 8 bytes) and nanoseconds (4       *)
(* bytes, below 10^9).  All arithmetic is on byte sequences, big-endian     *)
(* two's complement: ByteNumbers.                                          *)
(***************************************************************************)
EXTENDS AmqpDecode

NanosValue(b) == BE4(b, 1)                   \* below 2^30 for valid instants
ValidNanos(b) == b[1] < 128 /\ BE4(b, 1) < 1000000000
SecsOf(at) == SubSeq(at, 1, 8)
NanosOf(at) == SubSeq(at, 9, 12)

(* The milliseconds of an instant, finer fractions dropped towards the past *)
(* (10 bytes, so that nothing wraps).                                      *)
MillisOf(at) == MulAdd(Widen2(SecsOf(at)), 1000, NanosValue(NanosOf(at)) \div 1000000)

(* at is the instant the wire count ms (8 bytes) denotes.                  *)
Denotes(ms, at) ==
  /\ ValidNanos(NanosOf(at))
  /\ NanosValue(NanosOf(at)) % 1000000 = 0
  /\ MillisOf(at) = Widen2(ms)

(* The wire count of an instant. *)
CountOf(at) == SubSeq(MillisOf(at), 3, 10)
=============================================================================
