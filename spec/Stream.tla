------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Reading a connection: what a reader gets from the bytes that have been  *)
(* delivered and not yet consumed.  Three readers share one connection:    *)
(* protocol headers, SASL frames, AMQP frames.                             *)
(*                                                                         *)
(* Take(codec, rx) is <<outcome, bytes consumed, detail...>>:              *)
(*   <<"none">>                   not enough bytes yet                     *)
(*   <<"item", n, value, lax>>    an item of n bytes (lax: or an error)    *)
(*   <<"err", n, class>>          a bad item of n bytes                    *)
(*   <<"badlen", 0, due>>         a length that cannot be; the error is    *)
(*                                due once eight bytes are there           *)
(*   <<"any", n>>                 nothing is promised                      *)
(***************************************************************************)
EXTENDS AmqpDecode

ProtocolIds == {0, 2, 3}
TakeProto(rx) ==
  IF Len(rx) < 8 THEN <<"none">>
  ELSE IF SubSeq(rx, 1, 4) # <<65, 77, 81, 80>> THEN <<"err", 8, "InvalidHeader">>
  ELSE IF SubSeq(rx, 6, 8) # <<1, 0, 0>> THEN <<"err", 8, "Incompatible">>
  ELSE IF rx[5] \notin ProtocolIds THEN <<"err", 8, "Unknown">>
  ELSE <<"item", 8, <<"proto", <<rx[5]>>>>, FALSE>>
ProtoBytes(v) == <<65, 77, 81, 80, v[2][1], 1, 0, 0>>

HeaderLen == 8
TakeFrame(codec, rx) ==
  IF Len(rx) < 4 THEN <<"none">>
  ELSE LET n == BE4(rx, 1) IN
       IF n < HeaderLen THEN <<"badlen", 0, Len(rx) >= HeaderLen>>
       ELSE IF Len(rx) < n THEN <<"none">>
       ELSE LET body == SubSeq(rx, 5, n)
                r == Decode(<<IF codec = "sasl" THEN "saslframe" ELSE "amqpframe">>, body)
            IN  IF IsOk(r) THEN IF r[3] <= Len(body) THEN <<"err", n, "leftover">>
                                ELSE <<"item", n, r[2], r[4]>>
                ELSE IF IsErr(r) THEN <<"err", n, r[2]>>
                ELSE <<"any", n>>
Take(codec, rx) == IF codec = "proto" THEN TakeProto(rx) ELSE TakeFrame(codec, rx)

(* What has been written for an item. *)
WritesItem(codec, v, out) ==
  IF codec = "proto" THEN out = ProtoBytes(v)
  ELSE LET t == Take(codec, out)
       IN  t[1] = "item" /\ t[2] = Len(out) /\ ~t[4]
=============================================================================
