------------------------------- MODULE Clock -------------------------------
(***************************************************************************)
(* A clock that is set to the edges of time and ticks from there, forwards *)
(* and backwards; at every tick its time is sent and received.             *)
(*                                                                         *)
(* Checked: the instant that a count denotes gives the count back           *)
(* (Returns); fractions are dropped towards the past (Floors); an instant in *)
(* a leap second has the count of one a second later (Leaps); later counts *)
(* are later instants (Runs); the calendar's bounds are those of the years  *)
(* 1 to 9999 by the rule of leap years (Calendar).                         *)
(***************************************************************************)
EXTENDS Instants, Json, IOUtils

Number(str) == CHOOSE n \in 0..1023 : ToString(n) = str
Shard == TLCEval(Number(IOEnv.SHARD))
Shards == TLCEval(Number(IOEnv.SHARDS))
Depth == TLCEval(Number(IOEnv.DEPTH))

(* Arithmetic on byte sequences. *)
Inc(b, by) == MulAdd(b, 1, by)                                    \* wraps
Dec1(b, by) == Not(Inc(Not(b), by))
Less(a, b) ==         \* signed
  LET sa == [a EXCEPT ![1] = (@ + 128) % 256]  sb == [b EXCEPT ![1] = (@ + 128) % 256] IN
  \E n \in 1..Len(a) : sa[n] < sb[n] /\ \A m \in 1..(n-1) : sa[m] = sb[m]
InstantOf(ms) == LET r == FloorDiv(ms, 1000) IN r[1] \o U4(r[2] * 1000000)
Small(b) == FoldLeft(LAMBDA acc, x : acc * 256 + x, 0, b)
Known(b) == IF b[1] >= 128 THEN -1 - Small(Not(SubSeq(b, 5, 8))) ELSE Small(SubSeq(b, 5, 8))     \* when it fits 31 bits

(* The calendar. *)
DaysBefore(year) == LET y == year - 1 IN 365 * y + (y \div 4) - (y \div 100) + (y \div 400)
EpochDay == DaysBefore(1970)
DayMillis(day) ==         \* the count at which a day (0 is 1970-01-01) begins
  LET d == IF day < 0 THEN Not(Zeros(4) \o U4(-day - 1)) ELSE Zeros(4) \o U4(day)
  IN  MulAdd(MulAdd(d, 86400, 0), 1000, 0)
FirstMilli == TLCEval(DayMillis(-EpochDay))
LastMilli == TLCEval(Dec1(DayMillis(DaysBefore(10000) - EpochDay), 1))

Powers == FlattenSeq([n \in 1..8 |-> << Ext(0, 8, 0), [Zeros(8) EXCEPT ![n] = 1], [Zeros(8) EXCEPT ![n] = 127], [Zeros(8) EXCEPT ![n] = 128] >>])
Years == <<1, 2, 4, 5, 100, 101, 400, 401, 1000, 1582, 1600, 1677, 1678, 1900, 1901, 1904, 1969, 1970, 1971, 1972, 2000, 2001, 2038, 2106,
           2262, 2263, 2400, 9999, 10000>>
Starts == TLCEval(Powers \o [n \in 1..Len(Powers) |-> Not(Powers[n])]
          \o [n \in 1..Len(Years) |-> DayMillis(DaysBefore(Years[n]) - EpochDay)]
          \o [n \in 1..Len(Years) |-> DayMillis(DaysBefore(Years[n]) + 59 - EpochDay)]        \* the end of February
          \o << FirstMilli, LastMilli >>)

VARIABLES dial, ticked, before
vars == <<dial, ticked, before>>
Init == /\ \E n \in 1..Len(Starts) : n % Shards = Shard /\ dial = Starts[n]
        /\ ticked = 0 /\ before = <<>>
Steps == <<1, 2, 499, 999, 1000, 1001, 59999>>
Nanos == << <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 15, 66, 63>>, <<0, 7, 161, 32>> >>       \* within a millisecond
AddNanos(at, x) == SecsOf(at) \o Inc(NanosOf(at), BE4(x, 1))
LeapNanos == << U4(1000000000), U4(1000000001), U4(1000999999) >>       \* the sixty-first second of a minute
EndsMinute(at) == FloorDiv(SecsOf(at), 60)[2] = 59
Send == LET at == InstantOf(dial) IN
  /\ \A p \in BOOLEAN : PrintT(<<"VECTOR", ToJson([op |-> "time", dir |-> "dec", poly |-> p, ms |-> dial, note |-> "clock"])>>)
  /\ InCalendar(dial) => \A n \in 1..4 : \A p \in BOOLEAN :
       PrintT(<<"VECTOR", ToJson([op |-> "time", dir |-> "enc", poly |-> p, at |-> AddNanos(at, Nanos[n]), note |-> "clock"]
                                 @@ (IF ~p /\ n % 2 = 0 THEN [arr |-> TRUE] ELSE [note |-> "clock"]))>>)
  /\ (InCalendar(dial) /\ EndsMinute(at)) => \A n \in 1..Len(LeapNanos) : \A p \in BOOLEAN :
       PrintT(<<"VECTOR", ToJson([op |-> "time", dir |-> "enc", poly |-> p, at |-> AddNanos(at, LeapNanos[n]), note |-> "leap"])>>)
Tick == /\ ticked < Depth
        /\ \E n \in 1..Len(Steps) : \/ dial' = Inc(dial, Steps[n]) \/ dial' = Dec1(dial, Steps[n])
        /\ before' = dial
        /\ ticked' = ticked + 1
        /\ Send
Last1 == ticked = Depth /\ ticked' = Depth + 1 /\ Send /\ UNCHANGED <<dial, before>>
Next == Tick \/ Last1
Spec == Init /\ [][Next]_vars

Returns == Denotes(dial, InstantOf(dial)) /\ CountOf(InstantOf(dial)) = dial
Floors == \A n \in 1..4 : CountOf(AddNanos(InstantOf(dial), Nanos[n])) = dial
Leaps == LET at == InstantOf(dial) IN
  EndsMinute(at) /\ dial[1] # 127 => \A n \in 1..Len(LeapNanos) : CountOf(AddNanos(at, LeapNanos[n])) = Inc(dial, 1000)
Runs == before # <<>> =>
  LET a == InstantOf(before)  b == InstantOf(dial) IN
  Less(before, dial) = (Less(SecsOf(a), SecsOf(b)) \/ (SecsOf(a) = SecsOf(b) /\ BE4(a, 9) < BE4(b, 9)))
Calendar == InCalendar(dial) = (~Less(dial, FirstMilli) /\ ~Less(LastMilli, dial))
=============================================================================
