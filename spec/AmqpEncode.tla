----------------------------- MODULE AmqpEncode -----------------------------
(***************************************************************************)
(* The legal encodings of a value: Encs(T, v) is a non-empty sequence of   *)
(* byte strings whose first element is the most compact form.  Compounds   *)
(* combine the forms of their parts one deviation at a time (all compact,  *)
(* each part in each of its other forms, all widest), so that the number   *)
(* of encodings stays proportional to the size of the value.               *)
(***************************************************************************)
EXTENDS AmqpDecode

(* ---------------------------------------------------------------------- *)
(* Combining                                                               *)
(* ---------------------------------------------------------------------- *)
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, TLCEval(ss))
(* parts: a sequence of sequences of alternatives *)
Combine(alts) ==
  LET parts == TLCEval(alts)
      canon == TLCEval([i \in 1..Len(parts) |-> parts[i][1]])
      dev   == Cat([i \in 1..Len(parts) |->
                      [j \in 1..(Len(parts[i]) - 1) |-> Cat([canon EXCEPT ![i] = parts[i][j + 1]])]])
      wide  == [i \in 1..Len(parts) |-> parts[i][Len(parts[i])]]
  IN  <<Cat(canon)>> \o dev \o (IF Len(dev) > 1 THEN <<Cat(wide)>> ELSE <<>>)

Filter(s, Op(_)) == SelectSeq(s, Op)

(* ---------------------------------------------------------------------- *)
(* Scalars                                                                 *)
(* ---------------------------------------------------------------------- *)
(* Codes of a fixed-width kind, compact ones first. *)
CodesOf(kind) == LET cs == {c \in DOMAIN FixedCodes : FixedCodes[c][1] = kind}
                 IN  SortSeq(SetToSeq(cs), LAMBDA a, b : \/ FixedCodes[a][2] < FixedCodes[b][2]
                                                         \/ FixedCodes[a][2] = FixedCodes[b][2] /\ a < b)
FixedKinds == {FixedCodes[c][1] : c \in DOMAIN FixedCodes}
FixedForms == [k \in FixedKinds |-> CodesOf(k)]
FixedEnc(code, b) ==     \* <<bytes>> if the code can express b, else <<>>
  LET k == FixedCodes[code][1]  w == FixedCodes[code][2]  c == FixedCodes[code][3] IN
  IF code = 65 THEN IF b = <<1>> THEN << <<65>> >> ELSE <<>>
  ELSE IF code = 66 THEN IF b = <<0>> THEN << <<66>> >> ELSE <<>>
  ELSE IF w = c THEN << <<code>> \o b >>
  ELSE IF w = 0 THEN IF b = Zeros(c) THEN << <<code>> >> ELSE <<>>
  ELSE IF b = Ext(IF k \in {"int", "long"} THEN Sign(b[c]) ELSE 0, c, b[c])
       THEN << <<code, b[c]>> >> ELSE <<>>
FixedEncs(k, b) == Cat([i \in 1..Len(FixedForms[k]) |-> FixedEnc(FixedForms[k][i], b)])

VarCode8 == [binary |-> 160, string |-> 161, symbol |-> 163]
VarEncs(k, b) == (IF Len(b) <= 255 THEN << <<VarCode8[k], Len(b)>> \o b >> ELSE <<>>)
                 \o << <<VarCode8[k] + 16>> \o U4(Len(b)) \o b >>
ScalarEncs(v) == IF v[1] \in FixedKinds THEN FixedEncs(v[1], v[2])
                 ELSE IF v[1] = "ssymbol" THEN VarEncs("symbol", v[2]) ELSE VarEncs(v[1], v[2])

(* A compound body with its preamble: 8-bit form when it fits, 32-bit form. *)
Compound(c8, c32, n, body) ==
  (IF Len(body) + 1 <= 255 /\ n <= 255 THEN << <<c8, Len(body) + 1, n>> \o body >> ELSE <<>>)
  \o << <<c32>> \o U4(Len(body) + 4) \o U4(n) \o body >>
ListForms(n, bodies) ==
  (IF n = 0 THEN << <<69>> >> ELSE <<>>)
  \o Cat([i \in 1..Len(bodies) |-> Compound(192, 208, n, bodies[i])])
MapForms(n, bodies) == Cat([i \in 1..Len(bodies) |-> Compound(193, 209, n, bodies[i])])

(* Elements of an array share one constructor. *)
ArrayForms(items) ==
  IF Len(items) = 0 THEN <<>>
  ELSE LET alts  == TLCEval(items)
           codes == {a[1] : a \in Range(alts[1])}
           able  == {c \in codes : \A i \in 1..Len(alts) : \E j \in 1..Len(alts[i]) : alts[i][j][1] = c}
           data(i, c) == Tail(alts[i][CHOOSE j \in 1..Len(alts[i]) : alts[i][j][1] = c])
           cs    == SortSeq(SetToSeq(able), <)
       IN  Cat([k \in 1..Len(cs) |->
              Compound(224, 240, Len(alts), <<cs[k]>> \o Cat([i \in 1..Len(alts) |-> data(i, cs[k])]))])

(* ---------------------------------------------------------------------- *)
(* Restricted types: the underlying value                                  *)
(* ---------------------------------------------------------------------- *)
Key(f, x) == CHOOSE k \in DOMAIN f : f[k] = x
Base(v) ==
  CASE v[1] = "choice" -> <<ChoiceTable[v[2][1]][1], Key(ChoiceTable[v[2][1]][2], v[2][2])>>
    [] v[1] = "cond" -> <<"symbol", Key(Conditions, v[2])>>
    [] v[1] = "distmode" -> <<"symbol", Key(DistModes, v[2][1])>>
    [] v[1] \in {"custom-cond", "custom-distmode"} -> <<"symbol", v[2]>>
    [] OTHER -> v

DescriptorEncs(n) == ScalarEncs(<<"ulong", Zeros(7) \o <<CodeOf(n)>>>>) \o ScalarEncs(<<"symbol", SymOf(n)>>)

RECURSIVE Encs(_, _)
ElemType(T) == IF T[1] = "multiple" \/ T[1] = "array" THEN T[2] ELSE TVariant

(* Field lists: all present; with default or absent fields as null; and     *)
(* with trailing absent fields left out.                                   *)
FieldEncs(f, v) ==
  LET plain == IF v = NullV THEN << <<64>> >> ELSE Encs(f[2], v)
  IN  IF f[3] = "def" /\ v = f[4] THEN plain \o << <<64>> >> ELSE plain
Omittable(f, v) == (f[3] = "opt" /\ v = NullV) \/ (f[3] = "def" /\ v = f[4])
CompBodies(name, v) ==      \* <<count, body>> alternatives
  LET fs == Composites[name].fields
      al == TLCEval([i \in 1..Len(fs) |-> FieldEncs(fs[i], v[2][i])])
      full == TLCEval(Combine(al))
      cuts == {n \in 0..(Len(fs) - 1) : \A i \in (n + 1)..Len(fs) : Omittable(fs[i], v[2][i])}
      cs == SortSeq(SetToSeq(cuts), <)
  IN  [i \in 1..Len(cs) |-> <<cs[i], Cat([j \in 1..cs[i] |-> al[j][1]])>>]
      \o [i \in 1..Len(full) |-> <<Len(fs), full[i]>>]
CompEncs(name, v) ==
  LET bodies == TLCEval(CompBodies(name, v))
      lists  == Cat([i \in 1..Len(bodies) |-> ListForms(bodies[i][1], <<bodies[i][2]>>)])
      c      == Combine(<< << <<0>> >>, DescriptorEncs(name), lists >>)
  IN  c

Encs(T, v) ==
  CASE v[1] \in {"choice", "cond", "distmode", "custom-cond", "custom-distmode"} -> ScalarEncs(Base(v))
    [] v[1] \in LeafKinds -> ScalarEncs(v)
    [] v[1] = "list" ->
         ListForms(Len(v[2]), Combine([i \in 1..Len(v[2]) |-> Encs(TVariant, v[2][i])]))
    [] v[1] \in {"map", "vecmap"} ->
         LET K == IF T[1] = "map" THEN T[2] ELSE TVariant
             V == IF T[1] = "map" THEN T[3] ELSE TVariant
         IN  MapForms(2 * Len(v[2]),
               Combine(Cat([i \in 1..Len(v[2]) |-> <<Encs(K, v[2][i][1]), Encs(V, v[2][i][2])>>])))
    [] v[1] = "array" -> ArrayForms([i \in 1..Len(v[2]) |-> Encs(T[2], v[2][i])])
    [] v[1] = "multiple" ->
         (IF Len(v[2]) = 1 THEN Encs(T[2], v[2][1]) ELSE <<>>)
         \o (IF Len(v[2]) = 0 THEN << <<224, 2, 0, 163>>, <<240, 0, 0, 0, 5, 0, 0, 0, 0, 179>> >>
             ELSE ArrayForms([i \in 1..Len(v[2]) |-> Encs(T[2], v[2][i])]))
    [] v[1] = "desc" ->
         Combine(<< << <<0>> >>, ScalarEncs(v[2][1]), Encs(TVariant, v[2][2]) >>)
    [] v[1] \in DOMAIN SimpleSections ->
         Combine(<< << <<0>> >>, DescriptorEncs(v[1]), Encs(SimpleSections[v[1]].type, v[2][1]) >>)
    [] v[1] = "Transfer" /\ Len(v[2]) = 12 ->      \* with its payload
         LET cs == CompEncs("Transfer", <<"Transfer", SubSeq(v[2], 1, 11)>>)
             pl == IF v[2][12] = NullV THEN <<>> ELSE v[2][12][2]
         IN  [i \in 1..Len(cs) |-> cs[i] \o pl]
    [] v[1] = "Empty" -> << <<>> >>
    [] v[1] = "frame" ->
         LET bs == Encs(<<"performative">>, v[2][2]) IN
         [i \in 1..Len(bs) |-> <<2, 0>> \o v[2][1][2] \o bs[i]]
         \o << <<3, 0>> \o v[2][1][2] \o <<0, 83, 16, 255>> \o bs[1],
               <<4, 0>> \o v[2][1][2] \o Zeros(8) \o bs[Len(bs)] >>
    [] v[1] = "saslframe" ->
         LET bs == Encs(TUnion("SaslFrameBody"), v[2][1]) IN
         [i \in 1..Len(bs) |-> <<2, 1, 0, 0>> \o bs[i]]
         \o << <<3, 1, 255, 7, 1, 2, 3, 4>> \o bs[1] >>
    [] v[1] \in DOMAIN Composites -> CompEncs(v[1], v)

(* A frame on a stream: its own length first. *)
Framed(b) == U4(Len(b) + 4) \o b

(* Sections in their order, from a message value (AmqpDecode MsgValue). *)
SectionsOf(mv) ==
  LET p == mv[2]
      one(name, x) == IF x = NullV THEN <<>> ELSE << <<name, <<x>>>> >>
      asis(x) == IF x = NullV THEN <<>> ELSE <<x>>
      all(name, xs) == [i \in 1..Len(xs) |-> <<name, <<xs[i]>>>>]
  IN  asis(p[1]) \o one("DeliveryAnnotations", p[2]) \o one("MessageAnnotations", p[3])
      \o asis(p[4]) \o one("ApplicationProperties", p[5])
      \o all("Data", p[7][2]) \o all("AmqpSequence", p[8][2]) \o all("AmqpValue", p[9][2])
      \o one("Footer", p[6])
MessageEncs(mv) ==
  LET ss == SectionsOf(mv) IN Combine([i \in 1..Len(ss) |-> Encs(TUnion("Section"), ss[i])])
AllEncs(T, v) == IF T[1] = "message" THEN MessageEncs(v) ELSE Encs(T, v)
Enc(T, v) == AllEncs(T, v)[1]
=============================================================================
