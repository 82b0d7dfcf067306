----------------------------- MODULE Connection -----------------------------
(***************************************************************************)
(* A connection, seen from one of its ends: protocol headers, SASL frames  *)
(* and AMQP frames are written into a byte stream, which delivers them in  *)
(* pieces of any size; a reader with the state a streaming decoder has -   *)
(* between frames, or within a frame of known length - takes them out      *)
(* again, and may write frames of its own at any moment (Answer): what it  *)
(* writes does not disturb what it reads, nor the reverse (Answered).      *)
(*                                                                         *)
(* A script is a sequence of things that a peer sends.  The reader has one *)
(* turn for each: a protocol header, a SASL frame or an AMQP frame.        *)
(*                                                                         *)
(* Checked: what comes out does not depend on how the bytes were cut and   *)
(* when the reader looked (Consistent, Settled), it is what each thing      *)
(* sent would give by itself (Isolated), no byte is lost or read twice     *)
(* (Conserved), nothing is handed out before it is complete (Prompt is the *)
(* converse), and all that was sent comes out in the end (Arrives).        *)
(***************************************************************************)
EXTENDS Stream, AmqpEncode, Json, IOUtils

Number(str) == CHOOSE n \in 0..255 : ToString(n) = str
Shard == TLCEval(Number(IOEnv.SHARD))
Shards == TLCEval(Number(IOEnv.SHARDS))
Mode == IOEnv.PLAN        \* free: every interleaving.  cut1, cut2, cut3: so many cuts, behaviours exported
CutsOf == CASE Mode \in {"cut1", "both1"} -> 1 [] Mode \in {"cut2", "both2"} -> 2 [] Mode = "cut3" -> 3 [] OTHER -> 0
AnswersOf == IF Mode \in {"both1", "both2"} THEN 2 ELSE 0      \* how often the reader may write back
Free == Mode \in {"free", "live"}

(* ---------------------------------------------------------------------- *)
(* Things sent: <<reader, bytes>> or <<reader, bytes, value>>              *)
(* ---------------------------------------------------------------------- *)
AmqpF(ch, body) == <<"frame", << <<"ushort", ch>>, body>>>>
UInt1(n) == <<"uint", <<0, 0, 0, n>>>>
TransferOf(payload) ==
  <<"Transfer", [n \in 1..12 |-> CASE n = 1 -> UInt1(0) [] n \in {6, 9, 10, 11} -> False
                                   [] n = 12 -> payload [] OTHER -> NullV]>>
Value(codec, v) == <<codec, Framed(Enc(<<IF codec = "sasl" THEN "saslframe" ELSE "amqpframe">>, v)), v>>
Raw(codec, b) == <<codec, b>>
Good == TLCEval(<<
  Value("amqp", AmqpF(<<0, 0>>, <<"Empty", <<>>>>)),
  Value("amqp", AmqpF(<<0, 7>>, <<"End", <<NullV>>>>)),
  Value("amqp", AmqpF(<<1, 2>>, TransferOf(<<"binary", <<0, 0, 0, 8, 2>>>>))),
  Value("amqp", AmqpF(<<255, 255>>, TransferOf(NullV))),
  Raw("amqp", Framed(<<3, 0, 0, 1, 9, 9, 9, 9>> \o <<0, 83, 23, 69>>)),
  Raw("amqp", Framed(<<4, 0, 0, 1, 0, 0, 0, 8, 2, 0, 0, 0>>)) >>)
Bad == TLCEval(<<
  Raw("amqp", Framed(<<2, 1, 0, 0, 0, 83, 23, 69>>)),               \* another protocol's frame
  Raw("amqp", Framed(<<1, 0, 0, 0, 0, 83, 23, 69>>)),               \* data offset too small
  Raw("amqp", Framed(<<5, 0, 0, 0, 0, 83, 23, 69>>)),               \* data offset beyond the frame
  Raw("amqp", Framed(<<2, 0, 0, 0, 0, 83, 99, 69>>)),               \* no such performative
  Raw("amqp", Framed(<<2, 0, 0, 0, 0, 83, 17, 69>>)),               \* mandatory fields missing
  Raw("amqp", Framed(<<2, 0, 0, 0, 0, 83, 23, 69, 64, 64>>)),       \* bytes left over
  Raw("amqp", Framed(<<2, 0, 0, 0, 0, 83, 23, 192, 9, 1>>)),        \* an extent beyond the frame
  Raw("amqp", Framed(<<2, 0, 0, 0, 0, 83>>)),                       \* ends within its descriptor
  Raw("amqp", <<0, 0, 0, 16, 2, 0, 0, 0, 0, 83, 23, 69>>) >>)       \* says more than there is
Tiny == TLCEval(<< Raw("amqp", <<0, 0, 0, 0>>), Raw("amqp", <<0, 0, 0, 7, 2, 0, 0, 0>>), Raw("amqp", <<0, 0, 0, 4, 2, 0, 0, 0, 0>>) >>)
SaslThings == TLCEval(<<
  Value("sasl", <<"saslframe", << <<"SaslOutcome", <<Choice("SaslCode", "Ok"), NullV>>>> >>>>),
  Value("sasl", <<"saslframe", << <<"SaslResponse", << <<"binary", <<1>>>> >>>> >>>>),
  Raw("sasl", Framed(<<3, 1, 0, 0, 1, 2, 3, 4>> \o <<0, 83, 66, 192, 3, 1, 160, 0>>)),
  Raw("sasl", Framed(<<2, 0, 0, 0>>)),
  Raw("sasl", Framed(<<2, 1, 0, 0>>)),
  Raw("sasl", Framed(<<2, 1, 0, 0, 0, 83, 68, 192, 3, 1, 80, 9>>)) >>)
(* Frames that say they are large, and do not come.                        *)
Claim(len) == <<Raw("amqp", len \o <<2, 0, 0, 0, 0>>), Raw("amqp", len \o <<2, 0>>), Raw("sasl", len \o <<2, 1, 0, 0, 0, 83, 68>>)>>
Claims == TLCEval(FlattenSeq([n \in 1..12 |-> Claim(<< <<0, 0, 0, 255>>, <<0, 0, 15, 255>>, <<0, 0, 16, 0>>, <<0, 0, 127, 255>>, <<0, 0, 128, 9>>,
    <<0, 1, 0, 0>>, <<0, 16, 0, 0>>, <<1, 0, 0, 0>>, <<16, 0, 0, 0>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>> >>[n])]))
Header(n) == <<"proto", ProtoBytes(<<"proto", <<n>>>>), <<"proto", <<n>>>> >>
Headers == << Header(0), Header(2), Header(3) >>
BadHeaders == << Raw("proto", <<65, 77, 81, 80, 1, 1, 0, 0>>), Raw("proto", <<65, 77, 81, 80, 0, 0, 9, 1>>),
                 Raw("proto", <<65, 77, 81, 81, 0, 1, 0, 0>>), Raw("proto", <<0, 0, 0, 8, 2, 0, 0, 0>>),
                 Raw("proto", <<65, 77, 81, 80, 3, 1, 0, 1>>), Raw("proto", <<65, 77, 81, 80, 255, 1, 1, 0>>) >>

Frames == Good \o Bad
Things == Good \o Bad \o Tiny
Ones(ts) == [n \in 1..Len(ts) |-> <<ts[n]>>]
Twos(as, bs) == FlattenSeq([n \in 1..Len(as) |-> [m \in 1..Len(bs) |-> <<as[n], bs[m]>>]])
Threes(as, bs, cs) == FlattenSeq([k \in 1..Len(as) |-> [n \in 1..(Len(bs) * Len(cs)) |-> <<as[k]>> \o Twos(bs, cs)[n]]])
Handshakes ==
  Twos(Headers \o BadHeaders, Headers \o BadHeaders)
  \o Twos(<<Headers[1]>> \o BadHeaders, SubSeq(Good, 1, 3))
  \o Threes(<<Headers[3]>>, SaslThings, <<Headers[1], BadHeaders[2]>>)
  \o << <<Headers[3], SaslThings[2], SaslThings[1], Headers[1], Good[2], Good[1]>>,
        <<Headers[3], SaslThings[2], SaslThings[4], Headers[1], Bad[1], Good[2]>>,
        <<Headers[2], Headers[1], Good[3], Good[2], Good[3]>> >>
(* Every sequence of up to three frames after a first good one.            *)
Scripts == TLCEval(
  CASE IOEnv.SCRIPTS = "handshakes" -> Ones(Headers \o BadHeaders) \o Handshakes
    [] IOEnv.SCRIPTS = "sasl" -> Ones(SaslThings) \o Twos(SaslThings, SaslThings)
    [] IOEnv.SCRIPTS = "singles" -> Ones(Things) \o Ones(SaslThings)
    [] IOEnv.SCRIPTS = "good" -> Ones(Good) \o Twos(Good, Good) \o Threes(Good, Good, Good)
    [] IOEnv.SCRIPTS = "claims" -> Ones(Claims) \o Twos(SubSeq(Good, 2, 3), Claims) \o Twos(SubSeq(Bad, 1, 1), Claims)
    [] IOEnv.SCRIPTS = "talks" -> Twos(<<Good[1], Good[2], Good[3], Bad[1], Bad[6]>>, <<Good[1], Good[4], Bad[4]>>)
                                  \o Twos(SubSeq(SaslThings, 1, 2), SubSeq(SaslThings, 1, 2))
                                  \o Twos(SubSeq(Headers, 1, 1), SubSeq(Good, 2, 2)) \o Twos(SubSeq(Headers, 3, 3), SubSeq(SaslThings, 2, 2))
    [] IOEnv.SCRIPTS = "pairs" -> Twos(Things, Things)
    [] IOEnv.SCRIPTS = "triples" -> Threes(Frames, Things, SubSeq(Good, 1, 3)))
Mine == {n \in 1..Len(Scripts) : n % Shards = Shard}

BytesOf(scr) == FlattenSeq([n \in 1..Len(scr) |-> scr[n][2]])
TurnOf(scr, n) == IF n <= Len(scr) THEN scr[n][1] ELSE scr[Len(scr)][1]

(* ---------------------------------------------------------------------- *)
(* What must come out                                                      *)
(* ---------------------------------------------------------------------- *)
Outcome(t) == CASE t[1] = "item" -> IF t[4] THEN <<"lax">> ELSE <<"item", t[3]>>
                [] t[1] = "err" -> <<"err">>
                [] t[1] = "badlen" -> <<"badlen">>
                [] OTHER -> <<t[1]>>
RECURSIVE Reads(_, _, _)
(* Reading all the bytes at once, from the n-th turn on. *)
Reads(scr, n, rx) ==
  LET t == Take(TurnOf(scr, n), rx) IN
  CASE t[1] = "none" -> <<>>
    [] t[1] = "badlen" -> IF t[3] THEN << <<"badlen">> >> ELSE <<>>
    [] OTHER -> << Outcome(t) >> \o Reads(scr, n + 1, SubSeq(rx, t[2] + 1, Len(rx)))
(* A thing that is as long as it says. *)
Whole(th) == LET t == Take(th[1], th[2]) IN t[1] \in {"item", "err"} /\ t[2] = Len(th[2])
Alone(th) == Outcome(Take(th[1], th[2]))

(* ---------------------------------------------------------------------- *)
(* The connection                                                          *)
(* ---------------------------------------------------------------------- *)
VARIABLES script,    \* the number of the script
          sending,   \* things already written
          air,       \* bytes written and not delivered
          inbox,     \* bytes delivered and not consumed
          within,    \* <<>>: between frames; <<n>>: within a frame of n more bytes; <<-1>>: no more
          turn,      \* whose turn it is to read
          outs,      \* what the reader has handed out
          eaten,     \* bytes consumed
          looked,    \* the reader has looked at all there is
          cutsleft,  \* pieces that the stream may still be cut into
          answers,   \* things the reader has written back: <<reader, bytes, value>>
          doings     \* what was done, for export: bytes delivered, 0 for a look, -n for the n-th answer
vars == <<script, sending, air, inbox, within, turn, outs, eaten, looked, cutsleft, answers, doings>>
Note(d) == doings' = IF Free THEN <<>> ELSE Append(doings, d)

Init == /\ script \in Mine
        /\ sending = 0 /\ air = <<>> /\ inbox = <<>> /\ within = <<>> /\ turn = 1 /\ outs = <<>>
        /\ eaten = 0 /\ looked = TRUE /\ doings = <<>> /\ answers = <<>>
        /\ cutsleft = CutsOf

Scr == Scripts[script]
Wrote == sending = Len(Scr)
Write == /\ ~Wrote
         /\ LET th == Scr[sending + 1] IN
            air' = air \o th[2]
         /\ sending' = sending + 1
         /\ UNCHANGED <<script, doings, inbox, within, turn, outs, eaten, looked, cutsleft, answers>>

(* The reader writes back, with the codec it reads with, at any time: to   *)
(* what it reads that is nothing.                                          *)
Codec == TurnOf(Scr, turn)
Reply(codec) == CASE codec = "proto" -> Headers[1] [] codec = "sasl" -> SaslThings[1 + (Len(answers) % 2)]
                  [] OTHER -> Good[2 + (Len(answers) % 3)]
Answer == /\ Len(answers) < AnswersOf /\ Wrote
          /\ answers' = Append(answers, Reply(Codec))
          /\ Note(-Len(answers'))
          /\ UNCHANGED <<script, sending, air, inbox, within, turn, outs, eaten, looked, cutsleft>>

Move(n) == /\ inbox' = inbox \o SubSeq(air, 1, n)
           /\ air' = SubSeq(air, n + 1, Len(air))
           /\ looked' = (within = <<-1>>)      \* once dead, a reader does not look again
           /\ Note(n)
Deliver ==
  /\ air # <<>>
  /\ IF Free THEN (\E n \in 1..Len(air) : n \in {1, 2, 3, 4, 5, 8, Len(air)} /\ Move(n)) /\ UNCHANGED cutsleft
     ELSE /\ Wrote /\ looked
          /\ \/ \E n \in 1..(Len(air) - 1) : cutsleft > 0 /\ cutsleft' = cutsleft - 1 /\ Move(n)
             \/ cutsleft' = cutsleft /\ Move(Len(air))
  /\ UNCHANGED <<script, sending, within, turn, outs, eaten, answers>>

(* The reader looks.  Between frames it needs the eight bytes of a header   *)
(* and keeps the length; then it waits for as many bytes.                  *)
Hand(o, n) == /\ outs' = Append(outs, o)
              /\ inbox' = SubSeq(inbox, n + 1, Len(inbox))
              /\ turn' = turn + 1
              /\ within' = <<>>
              /\ eaten' = eaten + n
              /\ looked' = (inbox' = <<>>)
Wait(keep, n) == /\ within' = keep
                 /\ inbox' = SubSeq(inbox, n + 1, Len(inbox))
                 /\ eaten' = eaten + n
                 /\ looked' = TRUE
                 /\ UNCHANGED <<outs, turn>>
Body(need, from) ==          \* of a frame whose body of `need' bytes follows the first `from' bytes of the inbox
  IF Len(inbox) - from < need THEN Wait(<<need>>, from)
  ELSE LET body == SubSeq(inbox, from + 1, from + need)
           r == Decode(<<IF Codec = "sasl" THEN "saslframe" ELSE "amqpframe">>, body)
       IN  Hand(IF IsOk(r) THEN IF r[3] <= need THEN <<"err">> ELSE IF r[4] THEN <<"lax">> ELSE <<"item", r[2]>>
                ELSE <<"err">>, from + need)
Look ==
  /\ ~looked
  /\ within # <<-1>>
  /\ Note(0)
  /\ IF Codec = "proto" THEN LET t == TakeProto(inbox) IN
                             IF t[1] = "none" THEN Wait(<<>>, 0) ELSE Hand(Outcome(t), 8)
     ELSE IF within # <<>> THEN Body(within[1], 0)
     ELSE IF Len(inbox) < HeaderLen THEN Wait(<<>>, 0)
     ELSE IF BE4(inbox, 1) < HeaderLen
     THEN /\ outs' = Append(outs, <<"badlen">>) /\ within' = <<-1>> /\ looked' = TRUE
          /\ UNCHANGED <<inbox, turn, eaten>>
     ELSE Body(BE4(inbox, 1) - 4, 4)
  /\ UNCHANGED <<script, sending, air, cutsleft, answers>>

AllDone == Wrote /\ air = <<>> /\ looked
Vector == [op |-> "pipe", txcap |-> 0, rxcap |-> <<0, 64, 4096, 40000>>[(script % 4) + 1], prefill |-> <<>>, note |-> "connection",
           turns |-> [n \in 1..Len(Scr) |-> Scr[n][1]],
           steps |-> [n \in 1..Len(Scr) |-> IF Len(Scr[n]) = 3 THEN [do |-> "w", codec |-> Scr[n][1], val |-> Scr[n][3]]
                                                ELSE [do |-> "i", in |-> Scr[n][2]]]
                     \o [n \in 1..Len(doings) |-> IF doings[n] = 0 THEN [do |-> "t"]
                                                ELSE IF doings[n] < 0 THEN [do |-> "b", codec |-> answers[-doings[n]][1], val |-> answers[-doings[n]][3]] ELSE [do |-> "d", k |-> doings[n]]] \o << [do |-> "t"], [do |-> "e", codec |-> Codec] >>]
Export == /\ ~Free /\ AllDone /\ cutsleft # 99
          /\ cutsleft' = 99
          /\ PrintT(<<"VECTOR", ToJson(Vector)>>)
          /\ UNCHANGED <<script, sending, air, inbox, within, turn, outs, eaten, looked, answers, doings>>

Next == Write \/ Answer \/ Deliver \/ Look \/ Export
Fair == WF_vars(Write) /\ WF_vars(Deliver) /\ WF_vars(Look)
Spec == Init /\ [][Next]_vars /\ Fair

(* ---------------------------------------------------------------------- *)
(* What must hold                                                          *)
(* ---------------------------------------------------------------------- *)
Goals == TLCEval([n \in Mine |-> Reads(Scripts[n], 1, BytesOf(Scripts[n]))])
Totals == TLCEval([n \in Mine |-> Len(BytesOf(Scripts[n]))])
Written == LET RECURSIVE upto(_)
               upto(n) == IF n = 0 THEN 0 ELSE Len(Scr[n][2]) + upto(n - 1)
           IN  upto(sending)
Dead == within = <<-1>>
Consistent == IsPrefix(outs, Goals[script])
Conserved == eaten + Len(inbox) + Len(air) = Written
Settled == AllDone => outs = Goals[script]
Solos == TLCEval([n \in Mine |-> LET scr == Scripts[n] IN
                    IF \A m \in 1..Len(scr) : Whole(scr[m]) THEN [m \in 1..Len(scr) |-> Alone(scr[m])] ELSE <<>>])
Isolated == AllDone /\ Solos[script] # <<>> => outs = Solos[script]
(* Nothing complete is held back: having looked, the reader leaves nothing  *)
(* behind that could be taken.                                             *)
Prompt == looked /\ ~Dead /\ inbox # <<>> =>
            IF within = <<>> THEN LET t == Take(Codec, inbox) IN t[1] = "none" \/ (t[1] = "badlen" /\ ~t[3])
            ELSE Len(inbox) < within[1]
(* What is written as a value comes out as that value.                     *)
Wholes == TLCEval([n \in Mine |->      \* how many of a script's first things are whole
            LET scr == Scripts[n] IN
            CHOOSE k \in 0..Len(scr) : (\A m \in 1..k : Whole(scr[m])) /\ (k < Len(scr) => ~Whole(scr[k + 1]))])
Ordered == \A n \in 1..Min2(Len(outs), Wholes[script]) : Len(Scr[n]) = 3 => outs[n] = <<"item", Scr[n][3]>>
(* What is written back can be read as it was meant.                       *)
Answered == \A n \in 1..Len(answers) : LET t == Take(answers[n][1], answers[n][2]) IN
              t[1] = "item" /\ t[2] = Len(answers[n][2]) /\ t[3] = answers[n][3]
Arrives == <>(AllDone /\ outs = Goals[script])
=============================================================================
