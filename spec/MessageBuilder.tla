--------------------------- MODULE MessageBuilder ---------------------------
(***************************************************************************)
(* Messages under construction: what each building step makes of a         *)
(* message's content.  Content is a record; parts that may be absent are   *)
(* sequences of at most one element.                                       *)
(***************************************************************************)
EXTENDS AmqpDecode

Empty(kind) ==
  [kind |-> kind, fmt |-> <<>>, h |-> <<>>, da |-> <<>>, ma |-> <<>>, p |-> <<>>, app |-> <<>>,
   ft |-> <<>>, data |-> <<>>, seq |-> <<>>, msgs |-> <<>>, value |-> <<>>]
NoMsg == Empty("none")

(* Properties: field name to index *)
PropFields == Composites.Properties.fields
PropIndex(f) == CHOOSE i \in 1..Len(PropFields) : PropFields[i][1] = f
NoProps == <<"Properties", [i \in 1..Len(PropFields) |-> NullV]>>

(* app: <<>> or one sequence of <<key, value>> pairs.  A received message  *)
(* keeps one value per key, an outgoing one all pairs in order.            *)
SetApp(m, k, v) ==
  LET old == IF m.app = <<>> THEN <<>> ELSE m.app[1]
      new == IF m.kind = "in" THEN Append(SelectSeq(old, LAMBDA e : e[1] # k), <<k, v>>)
             ELSE Append(old, <<k, v>>)
  IN  [m EXCEPT !.app = <<new>>]

(* A payload: raw bytes, or the content of a message given by its slot.    *)
PayloadOf(p, slots) == IF p[1] = "slot" THEN <<slots[p[2][1] + 1].kind, slots[p[2][1] + 1]>> ELSE p

(* The next number, in as many bytes. *)
Counted(b) ==
  LET ks == {k \in 1..Len(b) : b[k] # 255}
      at == IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
  IN  [k \in 1..Len(b) |-> IF k = at THEN b[k] + 1 ELSE IF k > at THEN 0 ELSE b[k]]
(* Steps that make something of what is there, so that it matters how often *)
(* and in which order they are carried out.                                *)
PropEdit(p, e) ==
  LET was == p[2][PropIndex(e.f)] IN
  [p EXCEPT ![2][PropIndex(e.f)] =
    CASE e.do = "set_prop" -> e.val
      [] e.do = "raise" -> IF was = NullV THEN <<"uint", <<0, 0, 0, 1>>>> ELSE <<"uint", Counted(was[2])>>
      [] e.do = "lengthen" -> IF was = NullV THEN e.val ELSE <<was[1], was[2] \o e.val[2]>>]
WithProps(m, es) ==
  LET p == IF m.p = <<>> THEN NoProps ELSE m.p[1]
  IN  [m EXCEPT !.p = << FoldLeft(PropEdit, p, es) >>]

RECURSIVE ApplyEdit(_, _, _)
ApplyEdits(m, es, slots) == FoldLeft(LAMBDA acc, e : ApplyEdit(acc, e, slots), m, es)
ApplyEdit(m, e, slots) ==
  CASE e.do = "set_header" -> [m EXCEPT !.h = <<e.val>>]
    [] e.do \in {"set_prop", "raise", "lengthen"} -> WithProps(m, <<e>>)
    [] e.do = "set_props" -> WithProps(m, e.es)
    [] e.do = "set_app" -> SetApp(m, e.k, e.val)
    [] e.do = "set_value" -> [m EXCEPT !.value = <<e.val>>]
    [] e.do = "set_data" -> [m EXCEPT !.data = <<e.val>>]
    [] e.do = "push_data" -> [m EXCEPT !.data = Append(@, e.val)]
    [] e.do = "push_seq" -> [m EXCEPT !.seq = Append(@, e.val)]
    [] e.do = "body_value" -> [m EXCEPT !.value = e.vals]
    [] e.do = "push_msg" -> [m EXCEPT !.msgs = Append(@, PayloadOf(e.p, slots))]
    [] e.do = "pop_data" -> [m EXCEPT !.data = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
    [] e.do = "turn_data" -> [m EXCEPT !.data = Reverse(@)]
    [] e.do = "body" -> ApplyEdits(m, e.es, slots)
    [] e.do = "clear_body" -> [m EXCEPT !.data = <<>>, !.seq = <<>>, !.msgs = <<>>, !.value = <<>>]
    [] e.do = "format" -> [m EXCEPT !.fmt = e.vals]
    [] e.do = "look" -> m
    [] e.do = "update" -> ApplyEdits(m, e.es, slots)
    [] e.do = "if_some" -> IF e.on THEN ApplyEdits(m, e.es, slots) ELSE m

Reply(m) ==
  IF m.p = <<>> THEN Empty("out")
  ELSE [Empty("out") EXCEPT !.p =
          << [NoProps EXCEPT ![2][PropIndex("correlation_id")] = m.p[1][2][PropIndex("message_id")]] >>]

(* ---------------------------------------------------------------------- *)
(* Comparing content with what was observed                                *)
(* ---------------------------------------------------------------------- *)
OptEq(a, b) == Len(a) = Len(b) /\ (a = <<>> \/ ValEq(a[1], b[1]))
SeqEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : ValEq(a[i], b[i])
AsOpt(v) == IF v = NullV THEN <<>> ELSE <<v>>
KeysDistinct(pairs) == \A i, j \in 1..Len(pairs) : i < j => pairs[i][1] # pairs[j][1]
AppMap(m) == IF m.app = <<>> THEN <<>> ELSE << <<"map", LastWins(m.app[1])>> >>
NoBody(m) == m.data = <<>> /\ m.seq = <<>> /\ m.msgs = <<>> /\ m.value = <<>>

RECURSIVE EncodesTo(_, _), IsPayload(_, _)
(* The bytes b are an encoding of the content m. *)
EncodesTo(m, b) ==
  LET r == DecMessage(b, 1, Len(b)) IN
  /\ IsOk(r)
  /\ r[4] => (m.app # <<>> /\ ~KeysDistinct(m.app[1]))
  /\ r[3] = Len(b) + 1
  /\ LET d == r[2] IN
     /\ OptEq(m.h, AsOpt(d.Header))
     /\ OptEq(m.da, AsOpt(d.DeliveryAnnotations))
     /\ OptEq(m.ma, AsOpt(d.MessageAnnotations))
     /\ OptEq(m.p, AsOpt(d.Properties))
     /\ OptEq(AppMap(m), AsOpt(d.ApplicationProperties))
     /\ OptEq(m.ft, AsOpt(d.Footer))
     /\ SeqEq(m.seq, d.AmqpSequence)
     /\ OptEq(m.value, d.AmqpValue)
     /\ IF NoBody(m) THEN d.Data = << <<"binary", <<>>>> >>
        ELSE /\ Len(d.Data) = Len(m.data) + Len(m.msgs)
             /\ \A i \in 1..Len(m.data) : d.Data[i] = m.data[i]
             /\ \A i \in 1..Len(m.msgs) : IsPayload(m.msgs[i], d.Data[Len(m.data) + i][2])
IsPayload(p, b) == IF p[1] = "binary" THEN p[2] = b ELSE EncodesTo(p[2], b)

(* The content of a message given by its bytes. *)
FromSections(kind, d) ==
  [Empty(kind) EXCEPT !.h = AsOpt(d.Header), !.da = AsOpt(d.DeliveryAnnotations),
     !.ma = AsOpt(d.MessageAnnotations), !.p = AsOpt(d.Properties),
     !.app = IF d.ApplicationProperties = NullV THEN <<>> ELSE <<d.ApplicationProperties[2]>>,
     !.ft = AsOpt(d.Footer), !.data = d.Data, !.seq = d.AmqpSequence, !.value = d.AmqpValue]

(* What the accessors of a message must show.  A received message shows    *)
(* its application properties only one by one, for the keys asked for.     *)
ShowsApp(m, o) ==
  IF m.kind = "in" THEN
    \A i \in 1..Len(o.app) :
      OptEq(o.app[i][2],
            IF m.app = <<>> THEN <<>>
            ELSE LET hits == SelectSeq(m.app[1], LAMBDA e : e[1][2] = o.app[i][1])
                 IN  IF hits = <<>> THEN <<>> ELSE <<hits[1][2]>>)
  ELSE IF m.app = <<>> THEN o.app = <<>>
  ELSE o.app # <<>> /\ ValEq(<<"vecmap", m.app[1]>>, o.app[1])
ShowsMsgs(m, o) ==
  /\ Len(m.msgs) = Len(o.msgs)
  /\ \A i \in 1..Len(m.msgs) : m.msgs[i][1] = o.msgs[i][1] /\ IsPayload(m.msgs[i], o.msgs[i][2])
Shows(m, o) ==
  /\ "kind" \in DOMAIN o /\ o.kind = m.kind
  /\ o.fmt = m.fmt
  /\ OptEq(m.h, o.h) /\ OptEq(m.p, o.p)
  /\ ShowsApp(m, o)
  /\ OptEq(m.value, o.value)
  /\ SeqEq(m.data, o.data) /\ SeqEq(m.seq, o.seq)
  /\ ShowsMsgs(m, o)

(* Two messages of one kind are equal when their content is. *)
RECURSIVE ContentEq(_, _)
ContentEq(a, b) ==
  /\ a.kind = b.kind /\ a.fmt = b.fmt
  /\ OptEq(a.h, b.h) /\ OptEq(a.da, b.da) /\ OptEq(a.ma, b.ma) /\ OptEq(a.p, b.p) /\ OptEq(a.ft, b.ft)
  /\ Len(a.app) = Len(b.app)
  /\ a.app # <<>> => ValEq(<<IF a.kind = "in" THEN "map" ELSE "vecmap", a.app[1]>>,
                           <<IF a.kind = "in" THEN "map" ELSE "vecmap", b.app[1]>>)
  /\ SeqEq(a.data, b.data) /\ SeqEq(a.seq, b.seq) /\ OptEq(a.value, b.value)
  /\ Len(a.msgs) = Len(b.msgs)
  /\ \A i \in 1..Len(a.msgs) :
       /\ a.msgs[i][1] = b.msgs[i][1]
       /\ IF a.msgs[i][1] = "binary" THEN a.msgs[i] = b.msgs[i] ELSE ContentEq(a.msgs[i][2], b.msgs[i][2])
=============================================================================
