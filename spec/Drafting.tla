------------------------------ MODULE Drafting ------------------------------
(***************************************************************************)
(* Messages being built, measured, copied and sent: the state machine of a *)
(* few message slots.  Each message carries its content (MessageBuilder)   *)
(* and may remember what it was when its size was last asked for - the     *)
(* memory that an implementation keeps in order not to measure twice.      *)
(*                                                                         *)
(* Checked: the memory never outlives the content (Coherent); whatever was *)
(* built can be written and reads back as the same content (Carries); a    *)
(* copy has a life of its own (Separate, as an action property); building  *)
(* steps touch what they name and nothing else (Local).                    *)
(***************************************************************************)
EXTENDS MessageBuilder, Catalog, Json, IOUtils

Number(str) == CHOOSE n \in 0..1023 : ToString(n) = str
Shard == TLCEval(Number(IOEnv.SHARD))
Shards == TLCEval(Number(IOEnv.SHARDS))
Seed == TLCEval(Number(IOEnv.SEED))
Plan == IOEnv.PLAN      \* pairs: two building steps with one act between; triples; acts: any acts;
                        \* spans: parts of all sizes about a boundary; values: every part
                        \* at every value of the catalogue; payload, payspans: as a transfer's payload

(* ---------------------------------------------------------------------- *)
(* What can be done                                                        *)
(* ---------------------------------------------------------------------- *)
Props(f, v) == [do |-> "set_prop", f |-> f, val |-> v]
App(k, v) == [do |-> "set_app", k |-> <<"string", k>>, val |-> v]
KeyA == <<107, 49>>
KeyB == <<107, 50>>
U1 == <<"uint", <<0, 0, 0, 1>>>>
Str(b) == <<"string", b>>
HeaderOf(dur, pri, ttl) == <<"Header", << <<"bool", <<dur>>>>, <<"ubyte", <<pri>>>>, ttl, False, UintV(0)>>>>
Blob(n) == <<"binary", Rep(65, n)>>
Edits == TLCEval(<<
  [do |-> "set_header", val |-> HeaderOf(0, 4, NullV)],
  [do |-> "set_header", val |-> HeaderOf(1, 9, <<"uint", <<0, 1, 0, 0>>>>)],
  Props("message_id", <<"ulong", Zeros(8)>>), Props("message_id", Str(<<109>>)), Props("message_id", NullV),
  Props("user_id", Blob(3)), Props("to", Str(<<116, 111>>)), Props("to", Str(Text(300))), Props("subject", Str(<<195, 169>>)),
  Props("reply_to", Str(<<>>)), Props("correlation_id", <<"uuid", Rep(7, 16)>>), Props("content_type", <<"symbol", <<97, 47, 98>>>>),
  Props("content_encoding", <<"symbol", <<103>>>>), Props("absolute_expiry_time", <<"timestamp", Zeros(8)>>),
  Props("creation_time", <<"timestamp", Ext(0, 8, 200)>>), Props("group_id", Str(<<103>>)), Props("group_sequence", U1),
  Props("reply_to_group_id", Str(<<114>>)),
  App(KeyA, U1), App(KeyA, Str(Text(260))), App(KeyB, <<"null", <<>>>>),
  [do |-> "set_value", val |-> U1], [do |-> "set_value", val |-> <<"list", <<Str(Text(40)), U1>>>>],
  [do |-> "set_data", val |-> Blob(1)], [do |-> "set_data", val |-> Blob(300)],
  [do |-> "push_data", val |-> Blob(2)], [do |-> "push_data", val |-> Blob(0)],
  [do |-> "push_seq", val |-> <<"list", <<U1>>>>], [do |-> "push_seq", val |-> <<"list", <<>>>>],
  [do |-> "body_value", vals |-> <<Str(<<118>>)>>], [do |-> "body_value", vals |-> <<>>],
  [do |-> "push_msg", p |-> Blob(5)], [do |-> "push_msg", p |-> <<"slot", <<0>>>>], [do |-> "push_msg", p |-> <<"slot", <<1>>>>],
  [do |-> "raise", f |-> "group_sequence"], [do |-> "lengthen", f |-> "subject", val |-> Str(<<43>>)],
  [do |-> "set_props", es |-> << [do |-> "raise", f |-> "group_sequence"], Props("to", NullV), [do |-> "lengthen", f |-> "subject", val |-> Str(Text(130))] >>],
  [do |-> "pop_data"], [do |-> "turn_data"],
  [do |-> "body", es |-> << [do |-> "push_data", val |-> Blob(1)], [do |-> "push_data", val |-> Blob(250)], [do |-> "turn_data"] >>],
  [do |-> "if_some", on |-> TRUE, es |-> << [do |-> "raise", f |-> "group_sequence"], [do |-> "push_seq", val |-> <<"list", <<>>>>] >>],
  [do |-> "clear_body"], [do |-> "format", vals |-> <<U1>>], [do |-> "format", vals |-> <<>>], [do |-> "look"],
  [do |-> "update", es |-> <<App(KeyB, U1), [do |-> "set_value", val |-> Str(<<122>>)]>>],
  [do |-> "if_some", on |-> TRUE, es |-> <<Props("subject", Str(<<115>>))>>],
  [do |-> "if_some", on |-> FALSE, es |-> <<Props("subject", Str(<<115>>)), [do |-> "clear_body"]>>] >>)
Received == TLCEval([n \in 1..3 |-> Enc(<<"message">>, Messages(0)[<<6, 9, 4>>[n]])])
Births == TLCEval(<<
  [do |-> "new", slot |-> 0, kind |-> "in"], [do |-> "new", slot |-> 0, kind |-> "out"],
  [do |-> "with_body", slot |-> 0, kind |-> "in", val |-> Blob(4)], [do |-> "with_body", slot |-> 0, kind |-> "out", val |-> Blob(4)],
  [do |-> "with_messages", slot |-> 0, kind |-> "in", ps |-> <<Blob(4), Blob(0)>>],
  [do |-> "with_messages", slot |-> 0, kind |-> "out", ps |-> <<>>],
  [do |-> "decode", slot |-> 0, kind |-> "in", in |-> Received[1]], [do |-> "decode", slot |-> 0, kind |-> "out", in |-> Received[2]],
  [do |-> "decode", slot |-> 0, kind |-> "out", in |-> Received[1]], [do |-> "decode", slot |-> 0, kind |-> "in", in |-> Received[2]],
  [do |-> "decode", slot |-> 0, kind |-> "in", in |-> Received[3]] >>)
Asks == << [do |-> "size", slot |-> 0], [do |-> "enc", slot |-> 0] >>
Crossings == <<
  [do |-> "clone", slot |-> 1, from |-> 0], [do |-> "clone", slot |-> 0, from |-> 1], [do |-> "size", slot |-> 1],
  [do |-> "eq", slot |-> 0, from |-> 1], [do |-> "decode", slot |-> 1, kind |-> "in", from |-> 0],
  [do |-> "decode", slot |-> 1, kind |-> "out", from |-> 0], [do |-> "reply", slot |-> 1, from |-> 0], [do |-> "enc", slot |-> 1] >>
EditSteps == [n \in 1..Len(Edits) |-> [do |-> "edit", slot |-> 0, e |-> Edits[n]]]
(* Parts of some size: what is one byte over or under a boundary. *)
SpanSizes == [n \in 1..30 |-> 233 + n]
SpanParts(n) == <<
  [do |-> "set_data", val |-> Blob(n)], [do |-> "push_data", val |-> Blob(n)], [do |-> "set_value", val |-> Str(Rep(66, n))],
  [do |-> "set_value", val |-> <<"list", <<Str(Rep(66, n - 8)), U1>>>>], [do |-> "body_value", vals |-> << <<"symbol", Rep(67, n)>> >>],
  [do |-> "set_value", val |-> <<"map", << <<U1, Blob(n - 4)>> >>>>],
  [do |-> "push_seq", val |-> <<"list", <<Str(Rep(66, n - 4))>>>>], [do |-> "push_seq", val |-> <<"list", [z \in 1..n |-> NullV]>>],
  [do |-> "push_msg", p |-> Blob(n)], App(KeyA, Str(Rep(66, n - 8))), App(Rep(75, n), U1), App(Rep(75, n - 10), <<"null", <<>>>>),
  Props("message_id", Str(Rep(66, n - 4))), Props("message_id", Blob(n)), Props("user_id", Blob(n)), Props("to", Str(Rep(66, n - 4))), Props("content_type", <<"symbol", Rep(67, n - 12)>>),
  Props("reply_to_group_id", Str(Rep(66, n - 16))) >>
SpanEdits == TLCEval(Cat([x \in 1..Len(SpanSizes) |-> LET q == SpanParts(SpanSizes[x]) IN
                           [y \in 1..Len(q) |-> [do |-> "edit", slot |-> 0, e |-> q[y]]]]))
SpanInner == TLCEval(Cat([x \in 1..Len(SpanSizes) |->
  << [do |-> "with_body", slot |-> 1, kind |-> IF x % 2 = 0 THEN "in" ELSE "out", val |-> Blob(SpanSizes[x])],
     [do |-> "with_body", slot |-> 1, kind |-> IF x % 2 = 0 THEN "out" ELSE "in", val |-> Blob(SpanSizes[x])],
     [do |-> "with_messages", slot |-> 1, kind |-> "out", ps |-> <<Blob(SpanSizes[x] - 20), Blob(4)>>] >>]))
(* Every part at every value of the catalogue. *)
ValueParts == TLCEval(
     Cat([z \in 1..Len(PropFields) |-> LET xs == Samples(PropFields[z][2], 2) IN
           [y \in 1..Len(xs) |-> Props(PropFields[z][1], xs[y])]])
  \o [z \in 1..Len(CompSamples("Header", 1)) |-> [do |-> "set_header", val |-> CompSamples("Header", 1)[z]]]
  \o Cat([z \in 1..Len(Variants(2)) |-> LET v == Variants(2)[z] IN
           << [do |-> "set_value", val |-> v], App(KeyA, v), [do |-> "push_seq", val |-> <<"list", <<v, U1>>>>] >>])
  \o (LET bs == BlobBytes \o Telling IN Cat([z \in 1..Len(bs) |-> << [do |-> "set_data", val |-> <<"binary", bs[z]>>], [do |-> "push_msg", p |-> <<"binary", bs[z]>>] >>]))
  \o [z \in 1..Len(TextBytes) |-> App(TextBytes[z], U1)])
ValueEdits == [n \in 1..Len(ValueParts) |-> [do |-> "edit", slot |-> 0, e |-> ValueParts[n]]]
Steps == TLCEval(Births \o Asks \o Crossings \o EditSteps \o SpanEdits \o SpanInner \o ValueEdits)
BirthNs == 1..Len(Births)
AskNs == (Len(Births) + 1)..(Len(Births) + Len(Asks))
CrossNs == (Len(Births) + Len(Asks) + 1)..(Len(Births) + Len(Asks) + Len(Crossings))
EditNs == (Len(Births) + Len(Asks) + Len(Crossings) + 1)..(Len(Births) + Len(Asks) + Len(Crossings) + Len(Edits))
ValueNs == (Len(Steps) - Len(ValueEdits) + 1)..Len(Steps)
SpanEditNs == (Len(Steps) - Len(ValueEdits) - Len(SpanInner) - Len(SpanEdits) + 1)..(Len(Steps) - Len(ValueEdits) - Len(SpanInner))
SpanInnerNs == (Len(Steps) - Len(ValueEdits) - Len(SpanInner) + 1)..(Len(Steps) - Len(ValueEdits))
Embeds == TLCEval({n \in EditNs : Steps[n].e.do = "push_msg" /\ Steps[n].e.p = <<"slot", <<1>>>>})

(* ---------------------------------------------------------------------- *)
(* A message's bytes, in the order of its sections                         *)
(* ---------------------------------------------------------------------- *)
RECURSIVE WireOf(_), PayloadBytes(_)
PayloadBytes(p) == IF p[1] = "binary" THEN p[2] ELSE WireOf(p[2])
WireOf(m) ==
  LET sec(v) == Encs(TUnion("Section"), v)[1]
      all(name, vs) == Cat([n \in 1..Len(vs) |-> sec(<<name, <<vs[n]>>>>)])
      whole(vs) == Cat([n \in 1..Len(vs) |-> sec(vs[n])])
  IN  whole(m.h) \o all("DeliveryAnnotations", m.da) \o all("MessageAnnotations", m.ma) \o whole(m.p)
      \o all("ApplicationProperties", [n \in 1..Len(m.app) |-> <<"map", m.app[n]>>])
      \o (IF NoBody(m) THEN sec(<<"Data", << <<"binary", <<>>>> >>>>)
          ELSE all("Data", m.data) \o all("AmqpSequence", m.seq) \o all("AmqpValue", m.value)
               \o Cat([n \in 1..Len(m.msgs) |-> sec(<<"Data", << <<"binary", PayloadBytes(m.msgs[n])>> >>>>)]))
      \o all("Footer", m.ft)

(* ---------------------------------------------------------------------- *)
(* The machine                                                             *)
(* ---------------------------------------------------------------------- *)
VARIABLES drafts,     \* the slots: contents
          measured,   \* per slot: <<>> or what the content was when its size was taken
          doings      \* numbers of the steps taken
vars == <<drafts, measured, doings>>
Init == drafts = <<NoMsg, NoMsg>> /\ measured = << <<>>, <<>> >> /\ doings = <<>>

Lives(n) == drafts[n + 1] # NoMsg
Able(st) == CASE st.do \in {"new", "with_body", "with_messages"} -> TRUE
              [] st.do = "decode" -> IF "from" \in DOMAIN st THEN Lives(st.from) ELSE TRUE
              [] st.do \in {"clone", "reply"} -> Lives(st.from)
              [] st.do = "eq" -> Lives(st.slot) /\ Lives(st.from) /\ drafts[st.slot + 1].kind = drafts[st.from + 1].kind
              [] st.do = "edit" -> /\ Lives(st.slot)
                                   /\ IF st.e.do = "push_msg" THEN IF st.e.p[1] = "slot" THEN Lives(st.e.p[2][1]) ELSE TRUE ELSE TRUE
              [] OTHER -> Lives(st.slot)
Content(st) ==
  CASE st.do = "new" -> Empty(st.kind)
    [] st.do = "with_body" -> [Empty(st.kind) EXCEPT !.data = <<st.val>>]
    [] st.do = "with_messages" -> [Empty(st.kind) EXCEPT !.msgs = st.ps]
    [] st.do = "edit" -> ApplyEdit(drafts[st.slot + 1], st.e, drafts)
    [] st.do = "clone" -> drafts[st.from + 1]
    [] st.do = "reply" -> Reply(drafts[st.from + 1])
    [] st.do = "decode" ->
         LET b == IF "from" \in DOMAIN st THEN WireOf(drafts[st.from + 1]) ELSE st.in
             r == DecMessage(b, 1, Len(b))
         IN  IF IsOk(r) THEN FromSections(st.kind, r[2]) ELSE NoMsg
    [] OTHER -> drafts[st.slot + 1]
(* What an implementation remembers: sizes asked for, until something that  *)
(* builds comes along.  A copy takes the memory with it.                   *)
Memory(st) ==
  CASE st.do \in {"size", "enc"} -> <<drafts[st.slot + 1]>>
    [] st.do = "clone" -> measured[st.from + 1]
    [] st.do = "eq" -> measured[st.slot + 1]
    [] st.do = "edit" /\ st.e.do = "look" -> measured[st.slot + 1]
    [] OTHER -> <<>>
Take1(n) ==
  LET st == Steps[n] IN
  /\ Able(st)
  /\ drafts' = [drafts EXCEPT ![st.slot + 1] = Content(st)]
  /\ measured' = [measured EXCEPT ![st.slot + 1] = Memory(st)]
  /\ doings' = Append(doings, n)

(* Which steps may follow: the shapes of the histories explored.           *)
Rotated(a, b) == ((a * 7 + b + Seed) % Len(Births)) + 1
May(n) ==
  LET k == Len(doings) + 1 IN
  CASE Plan = "pairs" ->      \* birth, step, act, step: every pair of steps with every act
         CASE k = 1 -> n \in BirthNs
           [] k = 2 -> n \in EditNs /\ n % Shards = Shard
           [] k = 3 -> n \in AskNs \cup CrossNs
           [] k = 4 -> n \in EditNs /\ doings[1] = Rotated(doings[2] + doings[3], n)
           [] OTHER -> FALSE
    [] Plan = "acts" ->       \* birth, then any three acts or asks around one step
         CASE k = 1 -> n \in BirthNs
           [] k = 2 -> /\ n \in AskNs \cup CrossNs \cup {m \in EditNs : (m + doings[1] + Seed) % 4 = 0}
                       /\ (n + doings[1]) % Shards = Shard
           [] k = 3 -> n \in AskNs \cup CrossNs \cup {m \in EditNs : (m + doings[1] + doings[2] + Seed) % 8 = 0}
           [] k = 4 -> n \in AskNs \cup CrossNs
           [] OTHER -> FALSE
    [] Plan = "payload" ->    \* a message made of nothing by two steps, to be a transfer's payload
         CASE k = 1 -> n \in {1, 2}
           [] k \in {2, 3} -> /\ n \in EditNs /\ (k = 2 => n % Shards = Shard)
                              /\ IF Steps[n].e.do = "push_msg" THEN Steps[n].e.p[1] # "slot" ELSE TRUE
           [] OTHER -> FALSE
    [] Plan = "spans" ->      \* one part of some size, or a message of some size within another, and within another
         CASE k = 1 -> n \in {1, 2}
           [] k = 2 -> n \in SpanEditNs \cup SpanInnerNs /\ n % Shards = Shard
           [] k = 3 -> n \in (IF doings[2] \in SpanInnerNs THEN Embeds ELSE {m \in AskNs : (m + doings[2] + Seed) % 2 = 0})
           [] OTHER -> FALSE
    [] Plan = "values" ->     \* one part at some value, then measured, copied, answered or sent
         CASE k = 1 -> n \in {1, 2, 7, 8}
           [] k = 2 -> n \in ValueNs /\ n % Shards = Shard /\ (doings[1] > 2 => (n + doings[1] + Seed) % 4 = 0)
           [] k = 3 -> n \in {m \in AskNs \cup CrossNs : Steps[m].do # "eq"} /\ (doings[1] > 2 => Steps[n].do = "reply")
           [] OTHER -> FALSE
    [] Plan = "payspans" ->
         CASE k = 1 -> n \in {1, 2}
           [] k = 2 -> n \in SpanEditNs /\ n % Shards = Shard
           [] k = 3 -> n \in {m \in EditNs : Steps[m].e.do = "look"}
           [] OTHER -> FALSE
    [] OTHER ->               \* triples of steps with asks between
         CASE k = 1 -> n \in BirthNs
           [] k \in {2, 4, 6} -> n \in EditNs /\ IF k = 2 THEN (n + 3 * doings[1]) % Shards = Shard
                                                 ELSE (n * 5 + 3 * doings[k - 2] + doings[k - 1]) % 7 = Seed % 7
           [] k \in {3, 5} -> n \in AskNs /\ (n + k + doings[2]) % 2 = 0
           [] OTHER -> FALSE
Length == CASE Plan = "pairs" -> 4 [] Plan = "acts" -> 4 [] Plan \in {"payload", "spans", "payspans", "values"} -> 3 [] OTHER -> 6
(* Where to look for what may follow (sparing TLC the rest). *)
Among == LET k == Len(doings) + 1 IN
         IF k = 1 THEN BirthNs
         ELSE IF k = 2 THEN CASE Plan \in {"spans", "payspans"} -> SpanEditNs \cup SpanInnerNs
                              [] Plan = "values" -> ValueNs
                              [] OTHER -> AskNs \cup CrossNs \cup EditNs
         ELSE AskNs \cup CrossNs \cup EditNs
Act == Len(doings) < Length /\ \E n \in Among : May(n) /\ Take1(n)

Carried == <<"built", <<drafts[1].kind, [n \in 1..2 |-> Steps[doings[n + 1]].e]>>>>
Carriage == [n \in 1..12 |-> CASE n = 1 -> U1 [] n = 2 /\ doings[2] % 2 = 0 -> <<"uint", <<0, 0, 3, 0>>>>
                               [] n \in {6, 9, 10, 11} -> False [] n = 12 -> Carried [] OTHER -> NullV]
Frame == [op |-> "enc", ty |-> <<"amqpframe">>, note |-> "drafting", pre |-> IF doings[3] % 2 = 0 THEN <<>> ELSE <<1, 2, 3>>, tail |-> <<>>,
          val |-> <<"frame", << <<"ushort", <<0, doings[3]>>>>, <<"Transfer", Carriage>> >> >>]
Vector == [op |-> "msg", note |-> "drafting", keys |-> <<KeyA, KeyB, <<122>> >>,
           steps |-> [n \in 1..Len(doings) |-> Steps[doings[n]]]
                     \o << [do |-> "size", slot |-> 0], [do |-> "enc", slot |-> 0], [do |-> "size", slot |-> 1],
                           [do |-> "decode", slot |-> 2, kind |-> drafts[1].kind, from |-> 0] >>]
Export == /\ Len(doings) = Length
          /\ PrintT(<<"VECTOR", ToJson(IF Plan \in {"payload", "payspans"} THEN Frame ELSE Vector)>>)
          /\ doings' = Append(doings, 0)
          /\ UNCHANGED <<drafts, measured>>
Next == Act \/ Export
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------------- *)
(* What must hold                                                          *)
(* ---------------------------------------------------------------------- *)
Coherent == \A k \in 1..2 : measured[k] # <<>> => measured[k][1] = drafts[k]
Latest == IF doings = <<>> THEN 0 ELSE doings[Len(doings)]
(* Only what the last step touched: the rest has been looked at before.    *)
Touched(k) == IF Latest = 0 THEN FALSE ELSE Steps[Latest].slot + 1 = k /\ Steps[Latest].do \notin {"size", "enc", "eq"}
Carries == \A k \in 1..2 : Touched(k) /\ drafts[k] # NoMsg =>
  LET b == TLCEval(WireOf(drafts[k]))  r == DecMessage(b, 1, Len(b)) IN
  /\ EncodesTo(drafts[k], b)
  /\ IsOk(r) /\ (r[4] => drafts[k].app # <<>> /\ ~KeysDistinct(drafts[k].app[1]))
(* A step changes the slot it names.                                       *)
Newly == doings'[Len(doings')]
Separate == [][Newly # 0 => \A k \in 1..2 : k # Steps[Newly].slot + 1 => drafts'[k] = drafts[k]]_vars
(* Building steps change the part they name.                               *)
Part(e) == CASE e.do = "set_header" -> {"h"} [] e.do \in {"set_prop", "set_props", "raise", "lengthen"} -> {"p"} [] e.do = "set_app" -> {"app"}
             [] e.do \in {"set_value", "body_value"} -> {"value"} [] e.do \in {"set_data", "push_data", "pop_data", "turn_data"} -> {"data"}
             [] e.do = "push_seq" -> {"seq"} [] e.do = "push_msg" -> {"msgs"} [] e.do = "format" -> {"fmt"}
             [] e.do \in {"clear_body", "body"} -> {"data", "seq", "msgs", "value"} [] e.do = "look" -> {}
             [] OTHER -> {"h", "p", "app", "value", "data", "seq", "msgs", "fmt"}
Local == [][(IF Newly = 0 THEN FALSE ELSE Steps[Newly].do = "edit") =>
              \A f \in DOMAIN NoMsg : f \notin Part(Steps[Newly].e) => drafts'[1][f] = drafts[1][f]]_vars
(* What is set shows. *)
Shown == Latest \in EditNs \cup SpanEditNs \cup ValueNs =>
  LET e == Steps[Latest].e  m == drafts[1] IN
  CASE e.do = "set_header" -> m.h = <<e.val>>
    [] e.do = "set_prop" -> m.p[1][2][PropIndex(e.f)] = e.val
    [] e.do = "set_app" -> \E k \in 1..Len(m.app[1]) : m.app[1][k] = <<e.k, e.val>>
    [] e.do = "set_value" -> m.value = <<e.val>>
    [] e.do = "set_data" -> m.data = <<e.val>>
    [] e.do = "push_data" -> m.data # <<>> /\ m.data[Len(m.data)] = e.val
    [] e.do = "push_seq" -> m.seq # <<>> /\ m.seq[Len(m.seq)] = e.val
    [] e.do = "push_msg" -> m.msgs # <<>>
    [] e.do = "raise" -> m.p[1][2][PropIndex(e.f)] # NullV
    [] e.do = "lengthen" -> LET t == m.p[1][2][PropIndex(e.f)][2] IN SubSeq(t, Len(t) - Len(e.val[2]) + 1, Len(t)) = e.val[2]
    [] e.do = "body_value" -> m.value = e.vals
    [] e.do = "clear_body" -> NoBody(m)
    [] e.do = "format" -> m.fmt = e.vals
    [] OTHER -> TRUE
(* A step that counts counts once.                                         *)
Tally(m) == IF m.p = <<>> THEN NullV ELSE m.p[1][2][PropIndex("group_sequence")]
Once1 == [][(IF Newly = 0 THEN FALSE ELSE Steps[Newly].do = "edit" /\ Steps[Newly].e.do = "raise") =>
              Tally(drafts'[1]) = IF Tally(drafts[1]) = NullV THEN U1 ELSE <<"uint", Counted(Tally(drafts[1])[2])>>]_vars
(* A received message has at most one property of a name.                  *)
Once == \A k \in 1..2 : drafts[k].kind = "in" /\ drafts[k].app # <<>> => KeysDistinct(drafts[k].app[1])
(* What depends on a condition that does not hold does not happen.         *)
Idle == [][(IF Newly = 0 THEN FALSE ELSE Steps[Newly].do = "edit" /\ Steps[Newly].e.do = "if_some" /\ ~Steps[Newly].e.on)
             => drafts' = drafts]_vars
=============================================================================
