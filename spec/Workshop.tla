------------------------------ MODULE Workshop ------------------------------
(***************************************************************************)
(* Objects made of objects: one of the catalogue is chosen, one of the     *)
(* ways to make something of it is taken, and what comes of it is taken    *)
(* apart again.                                                            *)
(*                                                                         *)
(* Checked: nothing is lost (Returns: taken apart, the product is what it  *)
(* was made of), and what is rejected has no place among what the standard *)
(* assigns (Rightly).                                                      *)
(***************************************************************************)
EXTENDS Making, Catalog, Json, IOUtils

Number(str) == CHOOSE n \in 0..1023 : ToString(n) = str
Shard == TLCEval(Number(IOEnv.SHARD))
Shards == TLCEval(Number(IOEnv.SHARDS))

StrOf(b) == <<"string", b>>
Words3 == << <<>>, <<97>>, <<0>>, <<195, 169>>, <<97, 0, 98>>, Text(300) >>
Read == TLCEval(Words3 \o << <<0, 0>>, <<97, 0>>, <<0, 97>>, <<97, 10, 98>>, <<32>>, <<32, 97, 32>>, <<127>>, <<65, 90>>,
          <<226, 130, 172>>, <<240, 159, 152, 128>>, <<97, 195, 169, 98>>, <<239, 187, 191, 97>>, <<101, 204, 129>>,
          Text(31), Text(32), Text(254), Text(255), Text(256), Text(257), Text(300) \o <<0>> \o Text(9), Text(1000), Text(5000) >>)
Tries(way, vs) == [z \in 1..Len(vs) |-> <<way, <<vs[z]>>>>]
Blobs(k, bs) == [z \in 1..Len(bs) |-> <<k, bs[z]>>]
RoughBytes == [c \in 1..256 |-> <<c - 1>>]
Twisted(b) == << b, b \o <<97>>, IF b = <<>> THEN b ELSE SubSeq(b, 1, Len(b) - 1), IF b = <<>> THEN b ELSE [b EXCEPT ![1] = IF @ >= 97 THEN @ - 32 ELSE @ + 1] >>
CondTexts == SetToSeq(DOMAIN Conditions)
KnownTexts == CondTexts \o SetToSeq(DOMAIN Choices1("TerminusExpiryPolicy")) \o SetToSeq(DOMAIN DistModes)
              \o SetToSeq({SymOf(name) : name \in DOMAIN Composites \cup DOMAIN SimpleSections})
PolicyTexts == SetToSeq(DOMAIN Choices1("TerminusExpiryPolicy"))
Ending(kind) == << [do |-> "set_data", val |-> <<"binary", Rep(1, 40)>>], [do |-> "format", vals |-> <<SomeUint>>],
                   [do |-> "set_value", val |-> SomeText], [do |-> "set_app", k |-> SomeText, val |-> SomeUint],
                   [do |-> "push_msg", p |-> <<"binary", Rep(1, 256)>>], [do |-> "look"] >>
BuiltOf(kind) == LET es == Ending(kind) IN
  << <<"built", <<kind, <<>>>>>> >> \o [z \in 1..Len(es) |-> <<"built", <<kind, <<es[z]>>>>>>]
  \o Cat([z \in 1..Len(es) |-> [y \in 1..Len(es) |-> <<"built", <<kind, <<es[z], es[y]>>>>>>]])

Jobs == TLCEval(
     Tries("variant", SelectSeq(Variants(2), LAMBDA v : v[1] # "null"))
  \o Tries("variant", << <<"ssymbol", <<97, 58, 98>>>>, <<"ssymbol", <<>>>> >>)
  \o Cat([z \in 1..Len(Variants(2)) |-> LET v == Variants(2)[z] IN
       [y \in 1..4 |-> <<"worded", <<v, StrOf(CASE y = 1 -> <<>> [] y = 2 -> <<97>> [] y = 3 -> Text(300)
                                              [] OTHER -> IF v[1] \in {"string", "symbol"} THEN v[2] ELSE <<>>)>>>>]])
  \o Cat([z \in 1..Len(KnownTexts) |-> Cat([y \in 1..4 |->
       LET b == Twisted(KnownTexts[z])[y] IN
       Tries("variant", << <<"string", b>>, <<"symbol", b>>, <<"ssymbol", b>>, <<"binary", b>> >>)
       \o Tries("reading", << <<"string", b>>, <<"symbol", b>> >>)
       \o Tries("messageid", << <<"string", b>>, <<"binary", b>> >>)])])
  \o Cat([z \in 1..Len(Read) |-> Tries("reading", << <<"string", Read[z]>>, <<"symbol", Read[z]>> >>)
                                \o Tries("variant", << <<"string", Read[z]>>, <<"symbol", Read[z]>> >>)])
  \o Tries("messageid", Samples(TMessageId, 2))
  \o Tries("cond", SelectSeq(Samples(TCond, 2), LAMBDA v : v[1] = "cond")) \o Tries("cond", Leaves("symbol", 2))
  \o Tries("frame", Performatives(1))
  \o Tries("saslframe", UnionSamples("SaslFrameBody", 2))
  \o [z \in 1..Len(Samples(<<"amqpframe">>, 1)) |-> <<"amqpframe", Samples(<<"amqpframe">>, 1)[z][2]>>]
  \o Tries("payload", Blobs("binary", BlobBytes)) \o Tries("payload", BuiltOf("in")) \o Tries("payload", BuiltOf("out"))
  \o Cat([x \in 1..Len(Words3) |-> Cat([y \in 1..Len(Words3) |-> [z \in 1..Len(Words3) |->
       <<"response", <<StrOf(Words3[x]), StrOf(Words3[y]), StrOf(Words3[z])>>>>]])])
  \o Tries("seq", Samples(<<"list">>, 2)) \o Tries("seq", Samples(TSymbols, 2)) \o << <<"properties", <<>>>> >>
  \o Tries("Role", Blobs("bool", << <<0>>, <<1>> >>))
  \o Tries("SenderSettleMode", Blobs("ubyte", RoughBytes)) \o Tries("ReceiverSettleMode", Blobs("ubyte", RoughBytes))
  \o Tries("SaslCode", Blobs("ubyte", RoughBytes))
  \o Tries("TerminusDurability", Blobs("uint", Cat([c \in 1..256 |-> << Ext(0, 4, c - 1), <<1>> \o Ext(0, 3, c - 1) >>])))
  \o Cat([z \in 1..Len(PolicyTexts) |-> Tries("TerminusExpiryPolicy", Blobs("symbol", Twisted(PolicyTexts[z])))])
  \o Cat([z \in 1..Len(CondTexts) |-> Cat([g \in 1..4 |->
       Tries((<<"AmqpError", "ConnectionError", "SessionError", "LinkError">>)[g], Blobs("symbol", Twisted(CondTexts[z])))])]))

VARIABLES jobno, product
vars == <<jobno, product>>
Init == jobno \in {z \in 1..Len(Jobs) : z % Shards = Shard} /\ product = <<>>
Way == Jobs[jobno][1]
Given == Jobs[jobno][2]
Plainly == IF Given = <<>> THEN TRUE ELSE Given[1][1] # "built"
Make == /\ product = <<>>
        /\ product' = IF Plainly THEN Made(Way, Given) ELSE <<"built">>
        /\ PrintT(<<"VECTOR", ToJson([op |-> "make", way |-> Way, args |-> Given, note |-> "workshop"])>>)
        /\ UNCHANGED jobno
Next == Make
Spec == Init /\ [][Next]_vars

Clear == Way = "response" => \A z \in 1..2 : ~\E k \in 1..Len(Given[z][2]) : Given[z][2][k] = 0
Returns == product # <<>> /\ product[1] = "gives" /\ Clear => SeqEq(Unmade(Way, product[2]), Given)
Rightly == product # <<>> /\ product[1] = "rejects" =>
  ~\E c \in (IF Way \in Groups1 THEN {x \in DOMAIN Conditions : Conditions[x][1] = Way} ELSE DOMAIN Choices1(Way)) : c = Given[1][2]
=============================================================================
