----------------------------- MODULE AmqpDecode -----------------------------
(***************************************************************************)
(* What a byte sequence means: the conforming AMQP 1.0 decoder, for every  *)
(* type of the library.  See AmqpWire for values and results.              *)
(*                                                                         *)
(* Types: <<scalar kind>>, <<"variant">>, <<"list">>, <<"map", K, V>>,      *)
(* <<"vecmap">> (string keys, kept in order), <<"array", T>>,               *)
(* <<"multiple", T>>, <<"opt", T>>, <<"descriptor">>, <<"messageid">>,      *)
(* <<"cond">>, <<"distmode">>, <<"choice", name>>, <<"comp", name>>,        *)
(* <<"union", name>>, <<"performative">>, <<"amqpframe">>, <<"saslframe">>, *)
(* <<"transfer">> (a transfer with its payload),                           *)
(* <<"message">>.                                                          *)
(***************************************************************************)
EXTENDS AmqpSchema, ByteNumbers

(* ---------------------------------------------------------------------- *)
(* Helpers for compound bodies                                             *)
(* ---------------------------------------------------------------------- *)
Upto(n) == [i \in 1..n |-> i]
Min2(a, b) == IF a < b THEN a ELSE b

(* All items decoded into acc = <<"ok", items, next, lax>>; the declared    *)
(* extent ends at e, the enclosing position continues at e + 1.            *)
CloseExtent(kind, r, e) ==
  IF ~IsOk(r) THEN r ELSE Ok(<<kind, r[2]>>, e + 1, r[4] \/ r[3] # e + 1)

ScalarBody(kind, code, s, p, e) ==
  IF code \in DOMAIN FixedCodes /\ FixedCodes[code][1] = kind THEN
    IF kind = "timestamp" THEN
      \* instants outside the calendar may be refused, never altered
      LET r == DecFixed(code, s, p, e) IN IF IsOk(r) THEN MaybeLax(r, ~InCalendar(r[2][2])) ELSE r
    ELSE DecFixed(code, s, p, e)
  ELSE IF code \in DOMAIN VarCodes /\ VarCodes[code][1] = kind THEN
    DecVarBody(kind, VarCodes[code][2], s, p, e)
  ELSE CodeErr(code)

(* A descriptor: an unsigned long or a symbol, in any width.               *)
DecDescriptor(s, p, e) ==
  IF p > e THEN Err("length")
  ELSE IF KindOf(s[p]) \in {"ulong", "symbol"} THEN ScalarBody(KindOf(s[p]), s[p], s, p + 1, e)
  ELSE CodeErr(s[p])

(* The value kept for a key that occurs more than once is the last one.    *)
Unlike == {"uint", "ulong", "string", "symbol"}     \* keys that are the same only if they are equal
DupKey(pairs) == IF Len(pairs) > 100 /\ \A i \in 1..Len(pairs) : pairs[i][1][1] \in Unlike
                 THEN Cardinality({pairs[i][1] : i \in 1..Len(pairs)}) # Len(pairs)
                 ELSE \E i, j \in 1..Len(pairs) : i < j /\ SameKey(pairs[i][1], pairs[j][1])
LastWins(pairs) ==
  FoldLeft(LAMBDA acc, kv :
             IF \E i \in 1..Len(acc) : SameKey(acc[i][1], kv[1])
             THEN [acc EXCEPT ![CHOOSE i \in 1..Len(acc) : SameKey(acc[i][1], kv[1])][2] = kv[2]]
             ELSE Append(acc, kv),
           <<>>, pairs)

RECURSIVE DecBody(_, _, _, _, _, _), Dec(_, _, _, _, _)

(* One value: a constructor, then a body. *)
Dec(T, s, p, e, d) ==
  IF p > e THEN Err("length") ELSE DecBody(T, s[p], s, p + 1, e, d)

(* step(acc, i) for i = 1..n, where acc[2] gathers what is found: many      *)
(* items are gathered in chunks.                                           *)
ChunkLen == 256
Gather(step(_, _), p, n) ==
  LET Part(q, k) == FoldLeft(step, Ok(<<>>, q, FALSE), Upto(k)) IN
  IF n <= ChunkLen THEN Part(p, n)
  ELSE FoldLeft(LAMBDA acc, c :
                  IF acc[1] # "ok" THEN acc
                  ELSE LET r == TLCEval(Part(acc[3], Min2(ChunkLen, n - ChunkLen * (c - 1))))
                       IN  IF IsOk(r) THEN Ok(TLCEval(acc[2] \o r[2]), r[3], acc[4] \/ r[4]) ELSE r,
                Ok(<<>>, p, FALSE), Upto((n + ChunkLen - 1) \div ChunkLen))

DecItems(T, s, p, e, d, count) ==            \* items with their own constructors
  Gather(LAMBDA acc, i :
             IF acc[1] # "ok" THEN acc
             ELSE LET r == Dec(T, s, acc[3], e, d)
                  IN  IF IsOk(r) THEN Ok(Append(acc[2], r[2]), r[3], acc[4] \/ r[4]) ELSE r,
           p, Min2(count, (e - p + 1) + 1))   \* every item takes at least one byte

DecPairs(K, V, s, p, e, d, pairs) ==
  Gather(LAMBDA acc, i :
             IF acc[1] # "ok" THEN acc
             ELSE LET k == Dec(K, s, acc[3], e, d) IN
                  IF ~IsOk(k) THEN k
                  ELSE LET v == Dec(V, s, k[3], e, d) IN
                       IF IsOk(v) THEN Ok(Append(acc[2], <<k[2], v[2]>>), v[3], acc[4] \/ k[4] \/ v[4])
                       ELSE v,
           p, Min2(pairs, (e - p + 1) + 1))

DecArrayItems(T, ctor, s, p, e, d, count) == \* items sharing one constructor
  Gather(LAMBDA acc, i :
             IF acc[1] # "ok" THEN acc
             ELSE LET r == DecBody(T, ctor, s, acc[3], e, d)
                  IN  IF IsOk(r) THEN Ok(Append(acc[2], r[2]), r[3], acc[4] \/ r[4]) ELSE r,
           p, count)

DecMap(kind, K, V, code, s, p, e, d) ==
  LET h == CompoundHeader(code, s, p, e) IN
  IF ~IsOk(h) THEN h
  ELSE LET r  == DecPairs(K, V, s, h[3], h[4], d, h[2] \div 2)
           r2 == CloseExtent(kind, r, h[4])
       IN  IF ~IsOk(r2) THEN r2
           ELSE IF kind = "vecmap" THEN MaybeLax(r2, h[2] % 2 = 1 \/ DupKey(r[2]))
           ELSE IF DupKey(r[2]) THEN Ok(<<"map", LastWins(r[2])>>, r2[3], TRUE)
           ELSE MaybeLax(r2, h[2] % 2 = 1)

DecArray(T, code, s, p, e, d) ==
  LET h == CompoundHeader(code, s, p, e) IN
  IF ~IsOk(h) THEN h
  ELSE IF h[3] > h[4] THEN                  \* no room for the element constructor
         IF h[2] = 0 THEN Ok(<<"array", <<>>>>, h[4] + 1, TRUE) ELSE Err("length")
  ELSE LET ctor == s[h[3]]
           zero == ctor \in DOMAIN FixedCodes /\ FixedCodes[ctor][2] = 0
           n    == IF zero THEN Min2(h[2], 1024) ELSE Min2(h[2], (h[4] - h[3] + 1) + 1)
       IN  IF zero /\ h[2] > 1024 THEN Deep   \* nothing bounds such an array: may be refused
           ELSE LET r == CloseExtent("array", DecArrayItems(T, ctor, s, h[3] + 1, h[4], d, n), h[4])
                IN  MaybeLax(r, h[2] = 0 /\ KindOf(ctor) # T[1])

(* The fields of a composite, list constructor at p. *)
DecField(f, acc, s, e, d, present) ==
  IF ~present THEN
    CASE f[3] = "req" -> Err2("required", f[1])
      [] f[3] = "opt" -> Ok(Append(acc[2], NullV), acc[3], acc[4])
      [] f[3] = "def" -> Ok(Append(acc[2], f[4]), acc[3], acc[4])
  ELSE LET r == Dec(IF f[3] = "req" THEN f[2] ELSE TOpt(f[2]), s, acc[3], e, d) IN
       IF ~IsOk(r) THEN r
       ELSE Ok(Append(acc[2], IF f[3] = "def" /\ r[2] = NullV THEN f[4] ELSE r[2]),
               r[3], acc[4] \/ r[4])

DecFields(name, s, p, e, d) ==
  IF p > e THEN Err("length")
  ELSE IF ~(s[p] \in DOMAIN CompoundCodes /\ CompoundCodes[s[p]][1] = "list") THEN CodeErr(s[p])
  ELSE
    LET h  == CompoundHeader(s[p], s, p + 1, e)
        fs == Composites[name].fields
    IN  IF ~IsOk(h) THEN h
        ELSE LET r == FoldLeft(LAMBDA acc, i :
                          IF acc[1] # "ok" THEN acc
                          ELSE DecField(fs[i], acc, s, h[4], d, h[2] >= i),
                        Ok(<<>>, h[3], FALSE), Upto(Len(fs)))
                 r2 == CloseExtent(name, r, h[4])
             IN  MaybeLax(r2, h[2] > Len(fs))

(* A described value whose descriptor must be one of a table's. *)
DecDescribed(table, s, p, e, d) ==
  LET dr == DecDescriptor(s, p, e) IN
  IF ~IsOk(dr) THEN dr
  ELSE IF dr[2] \notin DOMAIN table THEN Err("descriptor")
  ELSE LET n == table[dr[2]] IN
       IF n \in DOMAIN SimpleSections
       THEN LET r == Dec(SimpleSections[n].type, s, dr[3], e, d)
            IN  IF IsOk(r) THEN Ok(<<n, <<r[2]>>>>, r[3], r[4]) ELSE r
       ELSE DecFields(n, s, dr[3], e, d)

DecBody(T, c, s, p, e, d) ==
  IF d > MaxDepth THEN Deep
  ELSE
  CASE T[1] = "variant" ->
         LET k == KindOf(c) IN
         IF k = "none" \/ k = "array" THEN CodeErr(c)
         ELSE IF k = "list" THEN DecBody(<<"list">>, c, s, p, e, d)
         ELSE IF k = "map" THEN DecMap("map", TVariant, TVariant, c, s, p, e, d + 1)
         ELSE IF k = "desc" THEN
           LET dr == DecDescriptor(s, p, e) IN
           IF ~IsOk(dr) THEN dr
           ELSE LET v == Dec(TVariant, s, dr[3], e, d + 1)
                IN  IF IsOk(v) THEN Ok(<<"desc", <<dr[2], v[2]>>>>, v[3], dr[4] \/ v[4]) ELSE v
         ELSE ScalarBody(k, c, s, p, e)
    [] T[1] \in ScalarKinds \cup {"binary", "string", "symbol"} -> ScalarBody(T[1], c, s, p, e)
    [] T[1] = "opt" -> IF c = 64 THEN Ok(NullV, p, FALSE) ELSE DecBody(T[2], c, s, p, e, d)
    [] T[1] = "list" ->
         IF KindOf(c) # "list" THEN CodeErr(c)
         ELSE LET h == CompoundHeader(c, s, p, e) IN
              IF ~IsOk(h) THEN h
              ELSE CloseExtent("list", DecItems(TVariant, s, h[3], h[4], d + 1, h[2]), h[4])
    [] T[1] = "map" ->
         IF KindOf(c) # "map" THEN CodeErr(c) ELSE DecMap("map", T[2], T[3], c, s, p, e, d + 1)
    [] T[1] = "vecmap" ->
         IF KindOf(c) # "map" THEN CodeErr(c) ELSE DecMap("vecmap", TString, TVariant, c, s, p, e, d + 1)
    [] T[1] = "array" ->
         IF KindOf(c) # "array" THEN CodeErr(c) ELSE DecArray(T[2], c, s, p, e, d)
    [] T[1] = "multiple" ->
         IF KindOf(c) = "array"
         THEN LET r == DecArray(T[2], c, s, p, e, d)
              IN  IF IsOk(r) THEN Ok(<<"multiple", r[2][2]>>, r[3], r[4]) ELSE r
         ELSE LET r == DecBody(T[2], c, s, p, e, d)
              IN  IF IsOk(r) THEN Ok(<<"multiple", <<r[2]>>>>, r[3], r[4]) ELSE r
    [] T[1] = "descriptor" ->
         IF KindOf(c) \in {"ulong", "symbol"} THEN ScalarBody(KindOf(c), c, s, p, e) ELSE CodeErr(c)
    [] T[1] = "messageid" ->
         IF KindOf(c) \in {"ulong", "uuid", "binary", "string"}
         THEN ScalarBody(KindOf(c), c, s, p, e) ELSE CodeErr(c)
    [] T[1] = "cond" ->
         LET r == ScalarBody("symbol", c, s, p, e)
         IN  IF IsOk(r) THEN Ok(CondValue(r[2][2]), r[3], r[4]) ELSE r
    [] T[1] = "distmode" ->
         LET r == ScalarBody("symbol", c, s, p, e)
         IN  IF IsOk(r) THEN Ok(DistValue(r[2][2]), r[3], r[4]) ELSE r
    [] T[1] = "choice" ->
         LET t == ChoiceTable[T[2]]
             r == ScalarBody(t[1], c, s, p, e)
         IN  IF ~IsOk(r) THEN r
             ELSE IF r[2][2] \notin DOMAIN t[2] THEN Err2("option", T[2])
             ELSE Ok(<<"choice", <<T[2], t[2][r[2][2]]>>>>, r[3], r[4])
    [] T[1] = "comp" ->
         IF c # DescribedCode THEN CodeErr(c) ELSE DecDescribed(CompTable[T[2]], s, p, e, d + 1)
    [] T[1] = "union" ->
         IF c # DescribedCode THEN CodeErr(c) ELSE DecDescribed(UnionTable[T[2]], s, p, e, d + 1)

(* ---------------------------------------------------------------------- *)
(* Performatives and frames                                                *)
(* ---------------------------------------------------------------------- *)
EmptyFrame == <<"Empty", <<>>>>

(* A transfer's payload is everything after its field list. *)
WithPayload(r, s, e) ==
  IF ~IsOk(r) THEN r
  ELSE IF r[2][1] # "Transfer" THEN r
  ELSE Ok(<<"Transfer", Append(r[2][2], IF r[3] > e THEN NullV ELSE <<"binary", SubSeq(s, r[3], e)>>)>>,
          e + 1, r[4])

DecPerformative(s, p, e) ==
  IF p > e THEN Ok(EmptyFrame, p, FALSE)
  ELSE WithPayload(Dec(TUnion("Performative"), s, p, e, 1), s, e)

(* The header that follows a frame's length: data offset, type, channel.   *)
(* Returns the channel and the position of the body.                       *)
FrameTypeAmqp == 0
FrameTypeSasl == 1
DecFrameHeader(type, s, p, e) ==
  IF e - p + 1 < 4 THEN Err("length")
  ELSE IF s[p+1] # type THEN
         IF s[p] < 2 THEN Err("any") ELSE Err2("frametype", ToString(s[p+1]))
  ELSE IF s[p] < 2 THEN Err("length")
  ELSE LET skip == 4 * s[p] - 4 IN    \* the data offset counts the length's own four bytes
       IF e - p + 1 < skip THEN Err("length")
       ELSE Ok(<<s[p+2], s[p+3]>>, p + skip, FALSE)

DecAmqpFrame(s, p, e) ==
  LET h == DecFrameHeader(FrameTypeAmqp, s, p, e) IN
  IF ~IsOk(h) THEN h
  ELSE LET b == DecPerformative(s, h[3], e)
       IN  IF IsOk(b) THEN Ok(<<"frame", << <<"ushort", h[2]>>, b[2]>>>>, b[3], b[4]) ELSE b

DecSaslFrame(s, p, e) ==
  LET h == DecFrameHeader(FrameTypeSasl, s, p, e) IN
  IF ~IsOk(h) THEN h
  ELSE LET b == Dec(TUnion("SaslFrameBody"), s, h[3], e, 1)
       IN  IF IsOk(b) THEN Ok(<<"saslframe", <<b[2]>>>>, b[3], b[4]) ELSE b

(* ---------------------------------------------------------------------- *)
(* Messages: a sequence of sections up to the end of the input             *)
(* ---------------------------------------------------------------------- *)
EmptyMsg == [Header |-> NullV, DeliveryAnnotations |-> NullV, MessageAnnotations |-> NullV,
             Properties |-> NullV, ApplicationProperties |-> NullV, Footer |-> NullV,
             Data |-> <<>>, AmqpSequence |-> <<>>, AmqpValue |-> <<>>]
SectionRank == [Header |-> 1, DeliveryAnnotations |-> 2, MessageAnnotations |-> 3, Properties |-> 4,
                ApplicationProperties |-> 5, Data |-> 6, AmqpSequence |-> 6, AmqpValue |-> 6,
                Footer |-> 7]
AddSection(m, sec) ==
  CASE sec[1] \in {"Data", "AmqpSequence"} -> [m EXCEPT ![sec[1]] = Append(@, sec[2][1])]
    [] sec[1] = "AmqpValue" -> [m EXCEPT !.AmqpValue = <<sec[2][1]>>]   \* the last one
    [] sec[1] \in {"Header", "Properties"} -> [m EXCEPT ![sec[1]] = sec]
    [] OTHER -> [m EXCEPT ![sec[1]] = sec[2][1]]
(* Sections are strictly ordered; only body sections repeat.               *)
InOrder(rank, sec) == SectionRank[sec[1]] > rank \/ (SectionRank[sec[1]] = 6 /\ rank = 6)
Repeated(m, sec) == /\ sec[1] \notin {"Data", "AmqpSequence"}
                    /\ m[sec[1]] # EmptyMsg[sec[1]]

RECURSIVE DecSections(_, _, _, _, _, _)
DecSections(s, p, e, m, rank, lax) ==
  LET r == Dec(TUnion("Section"), s, p, e, 1) IN
  IF ~IsOk(r) THEN r
  ELSE LET sec == r[2]
           m2  == AddSection(m, sec)
           lx  == lax \/ r[4] \/ ~InOrder(rank, sec) \/ Repeated(m, sec)
       IN  IF r[3] > e THEN Ok(m2, r[3], lx)
           ELSE DecSections(s, r[3], e, m2, SectionRank[sec[1]], lx)
DecMessage(s, p, e) == DecSections(s, p, e, EmptyMsg, 0, FALSE)

(* A message as a value, in the order of its sections.                     *)
MsgValue(m) == <<"message", << m.Header, m.DeliveryAnnotations, m.MessageAnnotations, m.Properties,
                   m.ApplicationProperties, m.Footer, <<"list", m.Data>>, <<"list", m.AmqpSequence>>,
                   <<"list", m.AmqpValue>> >> >>

(* ---------------------------------------------------------------------- *)
(* Entry points                                                            *)
(* ---------------------------------------------------------------------- *)
Decode(T, s) ==
  LET e == Len(s) IN
  CASE T[1] = "performative" -> DecPerformative(s, 1, e)
    [] T[1] = "transfer" -> WithPayload(Dec(TComp("Transfer"), s, 1, e, 1), s, e)
    [] T[1] = "amqpframe" -> DecAmqpFrame(s, 1, e)
    [] T[1] = "saslframe" -> DecSaslFrame(s, 1, e)
    [] T[1] = "message" -> LET r == DecMessage(s, 1, e)
                           IN  IF IsOk(r) THEN Ok(MsgValue(r[2]), r[3], r[4]) ELSE r
    [] OTHER -> Dec(T, s, 1, e, 1)
=============================================================================
