------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* One object goes from a sender over a channel to a receiver.             *)
(*                                                                         *)
(*   Pick     the sender settles on an object of the catalogue             *)
(*   Send     and on one of the legal encodings of it;                     *)
(*   Disturb  something may be wrong with what is sent: bytes appended,    *)
(*            the end cut off, one byte replaced;                          *)
(*   Craft    instead of an object, the sender may produce bytes with one  *)
(*            thing wrong by design: a value of another kind where a type  *)
(*            is expected, fields left out, sizes and counts that do not   *)
(*            fit their content, foreign descriptors, frame headers;       *)
(*   Receive  the receiver decodes.                                        *)
(*                                                                         *)
(* The invariants say what each of these must lead to.  They are           *)
(* theorems about the specification of the codec (AmqpDecode against       *)
(* AmqpEncode); the exported behaviours carry them to the implementation.  *)
(***************************************************************************)
EXTENDS Catalog, Json, IOUtils

(* ---------------------------------------------------------------------- *)
(* What is explored in a run                                               *)
(* ---------------------------------------------------------------------- *)
Plans ==
  [ values   |-> [groups |-> <<"scalars", "restricted", "compounds">>, depth |-> 2, moves |-> {}, crafts |-> {}],
    sendable |-> [groups |-> <<"composites", "frames">>, depth |-> 2, moves |-> {}, crafts |-> {}],
    every    |-> [groups |-> <<"scalars", "restricted", "compounds", "options", "composites", "frames">>, depth |-> 2,
                  moves |-> {}, crafts |-> {}],
    send     |-> [groups |-> <<"scalars", "restricted", "compounds", "options", "composites", "frames", "messages">>,
                  depth |-> 1, moves |-> {"send"}, crafts |-> {}],
    sendall  |-> [groups |-> <<"scalars", "restricted", "compounds", "options", "composites", "frames", "messages">>,
                  depth |-> 2, moves |-> {"send"}, crafts |-> {}],
    frames   |-> [groups |-> <<"frames">>, depth |-> 1, moves |-> {"send"}, crafts |-> {"header"}],
    messages |-> [groups |-> <<"messages">>, depth |-> 1, moves |-> {"send", "corrupt"}, crafts |-> {"section"}],
    restricted |-> [groups |-> <<"restricted">>, depth |-> 2, moves |-> {"send", "trail"}, crafts |-> {}],
    cut      |-> [groups |-> <<"scalars", "restricted", "compounds", "options", "composites", "frames", "messages">>,
                  depth |-> 0, moves |-> {"cut"}, crafts |-> {}],
    cutall   |-> [groups |-> <<"scalars", "restricted", "compounds", "options", "composites", "frames", "messages">>,
                  depth |-> 1, moves |-> {"cut"}, crafts |-> {}],
    trail    |-> [groups |-> <<"scalars", "restricted", "compounds", "options", "composites">>,
                  depth |-> 1, moves |-> {"trail"}, crafts |-> {}],
    corrupt  |-> [groups |-> <<"scalars", "restricted", "compounds", "composites", "frames", "messages">>,
                  depth |-> 0, moves |-> {"corrupt"}, crafts |-> {}],
    corruptall |-> [groups |-> <<"scalars", "restricted", "compounds", "options", "composites", "frames", "messages">>,
                  depth |-> 1, moves |-> {"corrupt"}, crafts |-> {}],
    kinds    |-> [groups |-> <<>>, depth |-> 0, moves |-> {}, crafts |-> {"kind", "field", "element", "foreign"}],
    fields   |-> [groups |-> <<"composites">>, depth |-> 1, moves |-> {"send"}, crafts |-> {"short", "absent"}],
    extents  |-> [groups |-> <<>>, depth |-> 0, moves |-> {}, crafts |-> {"extent"}],
    texts    |-> [groups |-> <<>>, depth |-> 0, moves |-> {}, crafts |-> {"char", "word", "utf"}] ]
Plan == TLCEval(Plans[IOEnv.PLAN])
Number(str) == CHOOSE n \in 0..255 : ToString(n) = str
Shard == TLCEval(Number(IOEnv.SHARD))
Shards == TLCEval(Number(IOEnv.SHARDS))
Exported == IOEnv.EXPORT = "dec"     \* what arrives, for the implementation to decode
Written == IOEnv.EXPORT = "enc"      \* what is picked, for the implementation to encode

Table == TLCEval(Items(Plan.groups, Plan.depth))
Mine == {n \in 1..Len(Table) : n % Shards = Shard}

(* ---------------------------------------------------------------------- *)
(* Crafted bytes: <<type, bytes, label>>                                   *)
(* ---------------------------------------------------------------------- *)
(* One value for every format code there is, and for codes there are not.  *)
BodyFor(code) ==
  IF code \in DOMAIN FixedCodes
  THEN LET w == FixedCodes[code][2] IN IF w = 1 THEN <<1>> ELSE IF w = 0 THEN <<>> ELSE Zeros(w - 1) \o <<1>>
  ELSE IF code \in DOMAIN VarCodes THEN IF VarCodes[code][2] = 1 THEN <<2, 97, 98>> ELSE <<0, 0, 0, 2, 97, 98>>
  ELSE IF code = 69 THEN <<>>
  ELSE IF code = 192 THEN <<1, 0>>  ELSE IF code = 208 THEN <<0, 0, 0, 4, 0, 0, 0, 0>>
  ELSE IF code = 193 THEN <<1, 0>>  ELSE IF code = 209 THEN <<0, 0, 0, 4, 0, 0, 0, 0>>
  ELSE IF code = 224 THEN <<4, 1, 163, 1, 97>>
  ELSE IF code = 240 THEN <<0, 0, 0, 10, 0, 0, 0, 1, 179, 0, 0, 0, 1, 97>>
  ELSE IF code = 0 THEN <<83, 36, 69>>
  ELSE IF code = 116 THEN Zeros(4) ELSE IF code = 132 THEN Zeros(8) ELSE IF code = 148 THEN Zeros(16)
  ELSE <<1, 1, 1, 1>>
Codes == SetToSortSeq(DOMAIN FixedCodes \cup DOMAIN VarCodes \cup DOMAIN CompoundCodes
                      \cup {0, 116, 132, 148, 1, 63, 79, 95, 127, 162, 191, 223, 255}, <)
OneOfEach == TLCEval([n \in 1..Len(Codes) |-> <<Codes[n]>> \o BodyFor(Codes[n])])

EveryType == TLCEval(ValueTypes \o << <<"descriptor">> >> \o Options \o CompTypes \o UnionTypes \o FrameTypes \o MessageTypes)
KindCrafts ==
  Cat([t \in 1..Len(EveryType) |-> [n \in 1..Len(OneOfEach) |-> <<EveryType[t], OneOfEach[n], "kind">>]])

(* A composite with the given bytes as its fields.                         *)
Described(name, fields, n) == <<0, 83, CodeOf(name)>> \o ListForms(n, <<Cat(fields)>>)[1]
HomeOf(name) == IF name = "Transfer" THEN <<"performative">> ELSE TComp(name)
CompositeNames == TLCEval(SetToSortSeq(DOMAIN Composites, LAMBDA a, b : CodeOf(a) < CodeOf(b)))
PlainFields == TLCEval([name \in DOMAIN Composites |->
                 LET fs == Composites[name].fields  least == Least(name)
                 IN  [z \in 1..Len(fs) |-> FieldEncs(fs[z], least[z])[1]]])
FieldCrafts ==
  Cat([c \in 1..Len(CompositeNames) |->
    LET name == CompositeNames[c]  fs == PlainFields[name] IN
    Cat([z \in 1..Len(fs) |->
      [n \in 1..Len(OneOfEach) |->
         <<HomeOf(name), Described(name, [fs EXCEPT ![z] = OneOfEach[n]], Len(fs)), "field">>]])])

(* Keys, values and elements of the wrong kind within compounds.           *)
KeyValueTypes == << <<TMap(TSymbol, TVariant), <<163, 1, 97>>, <<64>> >>, <<TMap(TString, TVariant), <<161, 1, 97>>, <<64>> >>,
                    <<TAnyMap, <<64>>, <<64>> >>, <<TFilterSet, <<163, 1, 97>>, <<161, 0>> >>,
                    <<TMap(TUint, TString), <<82, 1>>, <<161, 0>> >>, <<TMap(TUlong, TBinary), <<83, 1>>, <<160, 0>> >>,
                    << <<"vecmap">>, <<161, 1, 97>>, <<64>> >> >>
ElementCrafts ==
  Cat([m \in 1..Len(KeyValueTypes) |->
    LET t == KeyValueTypes[m] IN
    Cat([n \in 1..Len(OneOfEach) |->
      << <<t[1], MapForms(2, <<OneOfEach[n] \o t[3]>>)[1], "element">>,
         <<t[1], MapForms(2, <<t[2] \o OneOfEach[n]>>)[1], "element">> >>])])
  \o Cat([a \in 1..Len(Arrays) |->
       [n \in 1..Len(OneOfEach) |-> <<Arrays[a], <<224, Len(OneOfEach[n]) + 1, 1>> \o OneOfEach[n], "element">>]])
  \o [n \in 1..Len(OneOfEach) |-> <<TSymbols, <<224, Len(OneOfEach[n]) + 1, 1>> \o OneOfEach[n], "element">>]
  \o Cat([n \in 1..Len(OneOfEach) |->
       << <<TVariant, <<192, Len(OneOfEach[n]) + 1, 1>> \o OneOfEach[n], "element">>,
          <<TVariant, <<0, 83, 1>> \o OneOfEach[n], "element">>,
          <<TVariant, <<0>> \o OneOfEach[n] \o <<64>>, "element">> >>])

(* Every composite and section where another is expected; descriptors that *)
(* are nobody's, by number and by name, and described in a wrong kind.     *)
AllNames == TLCEval(CompositeNames \o SetToSortSeq(DOMAIN SimpleSections, LAMBDA a, b : CodeOf(a) < CodeOf(b)))
BodyOf(name) == IF name \in DOMAIN SimpleSections THEN Enc(SimpleSections[name].type, LeastOf(SimpleSections[name].type))
                ELSE ListForms(Len(PlainFields[name]), <<Cat(PlainFields[name])>>)[1]
Bodies == TLCEval([name \in Range(AllNames) |-> BodyOf(name)])
DescribedHomes == CompTypes \o UnionTypes \o << <<"performative">>, <<"transfer">> >>
Misspelt(b) == [b EXCEPT ![Len(b)] = IF @ = 122 THEN 97 ELSE @ + 1]
Misnamed(name) ==
  << <<128>> \o Zeros(7) \o <<CodeOf(name)>>, <<128, 0, 0, 0, 0, 0, 0, 1, CodeOf(name)>>, <<128, 1, 0, 0, 0, 0, 0, 0, CodeOf(name)>>,
     <<128>> \o Rep(255, 7) \o <<CodeOf(name)>>, <<83, (CodeOf(name) + 128) % 256>>, <<68>>,
     VarEncs("symbol", SymOf(name))[1], VarEncs("symbol", SymOf(name))[2], VarEncs("symbol", Misspelt(SymOf(name)))[1],
     VarEncs("symbol", SubSeq(SymOf(name), 1, Len(SymOf(name)) - 1))[1], VarEncs("symbol", SymOf(name) \o <<97>>)[1],
     VarEncs("string", SymOf(name))[1], VarEncs("binary", SymOf(name))[1],
     <<82, CodeOf(name)>>, <<80, CodeOf(name)>>, <<85, CodeOf(name) % 128>>, <<64>>, <<0, 83, CodeOf(name)>> >>
HomesOf(name) == SelectSeq(DescribedHomes, LAMBDA t :
                   \/ t[1] = "comp" /\ t[2] = name
                   \/ t[1] = "union" /\ name \in Unions[t[2]]
                   \/ t[1] = "transfer" /\ name = "Transfer"
                   \/ t[1] = "performative" /\ name \in Unions.Performative)
ForeignCrafts ==
  Cat([h \in 1..Len(DescribedHomes) |->
    [n \in 1..Len(AllNames) |->
       <<DescribedHomes[h], <<0, 83, CodeOf(AllNames[n])>> \o Bodies[AllNames[n]], "foreign">>]])
  \o Cat([n \in 1..Len(AllNames) |->
       LET hs == HomesOf(AllNames[n])  ms == Misnamed(AllNames[n]) IN
       Cat([h \in 1..Len(hs) |->
         [m \in 1..Len(ms) |-> <<hs[h], <<0>> \o ms[m] \o Bodies[AllNames[n]], "foreign">>]])])

(* Composites with only their first fields, in both widths.                *)
ShortCrafts ==
  Cat([c \in 1..Len(CompositeNames) |->
    LET name == CompositeNames[c]  fs == PlainFields[name] IN
    Cat([zz \in 1..(Len(fs) + 1) |->
           LET z == zz - 1
               forms == ListForms(z, <<Cat(SubSeq(fs, 1, z))>>)
           IN  [f \in 1..Len(forms) |-> <<HomeOf(name), <<0, 83, CodeOf(name)>> \o forms[f], "short">>]])])
(* Composites with one field absent or all but one absent.                 *)
AbsentCrafts ==
  Cat([c \in 1..Len(CompositeNames) |->
    LET name == CompositeNames[c]  fs == PlainFields[name] IN
    Cat([z \in 1..Len(fs) |->
      << <<HomeOf(name), Described(name, [fs EXCEPT ![z] = <<64>>], Len(fs)), "absent">>,
         <<HomeOf(name), Described(name, [y \in 1..Len(fs) |-> IF y = z THEN fs[y] ELSE <<64>>], Len(fs)), "absent">>,
         <<HomeOf(name), Described(name, [y \in 1..Len(fs) |-> IF y > z THEN <<64>> ELSE fs[y]], Len(fs)), "absent">> >>])])

(* Compounds whose size or count is off, alone, followed by more, and       *)
(* within a list whose own extent is right.                                *)
Long(n) == <<160, n>> \o Rep(120, n)
Compounds ==
  << <<TVariant, 192, 0, <<>>, <<>> >>, <<TVariant, 192, 1, <<>>, <<82, 7>> >>, <<TVariant, 192, 2, <<>>, <<82, 7, 161, 1, 97>> >>,
     << <<"list">>, 192, 2, <<>>, <<69, 192, 1, 0>> >>, <<TVariant, 193, 0, <<>>, <<>> >>, <<TVariant, 193, 2, <<>>, <<163, 1, 97, 64>> >>,
     <<TFields, 193, 4, <<>>, <<163, 1, 97, 64, 163, 1, 98, 67>> >>, << <<"vecmap">>, 193, 2, <<>>, <<161, 1, 97, 64>> >>,
     << <<"array", TSymbol>>, 224, 2, <<>>, <<163, 1, 97, 1, 98>> >>, << <<"array", TUint>>, 224, 3, <<>>, <<82, 1, 2, 3>> >>,
     << <<"array", TUint>>, 224, 3, <<>>, <<67>> >>, << <<"array", TBool>>, 224, 2, <<>>, <<65>> >>,
     << <<"array", TMap(TSymbol, TVariant)>>, 224, 1, <<>>, <<193, 5, 2, 163, 1, 97, 64>> >>,
     <<TSymbols, 224, 2, <<>>, <<163, 1, 97, 1, 98>> >>, <<TSymbols, 224, 0, <<>>, <<163>> >>,
     <<TComp("Accepted"), 192, 0, <<0, 83, 36>>, <<>> >>, <<TComp("Received"), 192, 2, <<0, 83, 35>>, <<82, 1, 83, 2>> >>,
     <<TComp("Header"), 192, 5, <<0, 83, 112>>, <<65, 80, 5, 64, 66, 82, 9>> >>, <<TUnion("Outcome"), 192, 1, <<0, 83, 39>>, <<65>> >>,
     << <<"performative">>, 192, 1, <<0, 83, 23>>, <<64>> >>,
     <<TUnion("Section"), 192, 1, <<0, 83, 118>>, <<82, 1>> >>, <<TUnion("Section"), 193, 2, <<0, 83, 120>>, <<163, 1, 97, 64>> >>,
     \* long ones
     <<TVariant, 192, 3, <<>>, Long(200) \o Long(200) \o Long(200)>>, << <<"list">>, 192, 520, <<>>, Rep(64, 520)>>,
     <<TFields, 193, 4, <<>>, <<163, 1, 97>> \o Long(250) \o <<163, 1, 98>> \o Long(250)>>,
     <<TVariant, 193, 2, <<>>, Long(255) \o Long(255)>>,
     <<TSymbols, 224, 3, <<>>, <<163>> \o <<200>> \o Rep(97, 200) \o <<200>> \o Rep(98, 200) \o <<200>> \o Rep(99, 200)>>,
     << <<"array", TUint>>, 224, 160, <<>>, <<112>> \o Rep(7, 640)>>,
     <<TComp("Error"), 192, 2, <<0, 83, 29>>, <<163, 1, 97, 177, 0, 0, 2, 88>> \o Rep(98, 600)>>,
     << <<"performative">>, 192, 3, <<0, 83, 20>>, <<67, 67, 176, 0, 0, 2, 88>> \o Rep(9, 600)>> >>
Padded(b, pad) == b \o pad
Signed(n, d) == IF n + d < 0 THEN 0 ELSE n + d
ExtentForm(c, wide, dsize, dcount, pad) ==
  LET body == c[5] \o pad
      size == Signed((IF wide THEN 4 ELSE 1) + Len(body), dsize)
      count == Signed(c[3], dcount)
  IN  c[4] \o IF wide THEN <<c[2] + 16>> \o U4(size) \o U4(count) \o body
              ELSE <<c[2], size % 256, count % 256>> \o body
Deltas == << 0, 1, 2, 3, 4, 5, -1, -2, -3, -4, -5, -8, 100 >>
Counts == << 0, 1, 2, -1, -2, 100 >>
Pads == << <<>>, <<64>>, <<64, 64>>, <<163, 1, 98, 67>> >>
Followed == << <<>>, <<64, 64, 64, 64, 64>> >>
Huge(c, wide) ==     \* sizes and counts beyond all bounds
  IF ~wide THEN << c[4] \o <<c[2], 255, 255>> \o c[5], c[4] \o <<c[2], 0, 0>> \o c[5], c[4] \o <<c[2], 255, c[3] % 256>> \o c[5] >>
  ELSE << c[4] \o <<c[2] + 16>> \o Rep(255, 8) \o c[5], c[4] \o <<c[2] + 16>> \o Zeros(8) \o c[5],
          c[4] \o <<c[2] + 16, 128, 0, 0, 0, 0, 0, 0, c[3] % 256>> \o c[5], c[4] \o <<c[2] + 16>> \o U4(4 + Len(c[5])) \o <<255, 255, 255, 255>> \o c[5],
          c[4] \o <<c[2] + 16, 127, 255, 255, 255, 128, 0, 0, 0>> \o c[5], c[4] \o <<c[2] + 16, 255, 255, 255, 252, 0, 0, 0, c[3] % 256>> \o c[5],
          c[4] \o <<c[2] + 16>> \o U4(4 + Len(c[5])) \o <<64, 0, 0, 0>> \o c[5], c[4] \o <<c[2] + 16, 0, 1, 0, 0, 0, 0, 0, c[3] % 256>> \o c[5] >>
Nested(b) == IF Len(b) > 253 THEN <<208>> \o U4(Len(b) + 5) \o U4(2) \o b \o <<67>> ELSE <<192, Len(b) + 2, 2>> \o b \o <<67>>
(* Composites that hold fewer or more fields than they declare, their size  *)
(* right or off by one.                                                    *)
Declared(name) == LET n == Len(PlainFields[name]) IN << 1, 2, n - 1, n, n + 1, 20, 255 >>
CompositeExtents ==
  Cat([c \in 1..Len(CompositeNames) |->
    LET name == CompositeNames[c]  fs == PlainFields[name]  ds == Declared(name) IN
    Cat([zz \in 1..(Len(fs) + 1) |-> Cat([k \in 1..Len(ds) |-> Cat([d \in 1..3 |->
      LET body == Cat(SubSeq(fs, 1, zz - 1))
          count == IF k = 1 THEN (IF zz > 1 THEN zz - 2 ELSE 0) ELSE IF k = 2 THEN zz ELSE ds[k]
          by == << 0, 1, -1 >>[d]
          head == <<0, 83, CodeOf(name)>>
      IN  IF count < 0 \/ Len(body) > 250 THEN <<>> ELSE
          << <<HomeOf(name), head \o <<192, Len(body) + 1 + by, count>> \o body, "extent">>,
             <<HomeOf(name), head \o <<208>> \o U4(Len(body) + 4 + by) \o U4(count) \o body, "extent">>,
             <<HomeOf(name), head \o <<192, Len(body) + 1 + by, count>> \o body \o <<64, 64>>, "extent">> >>])])])])
ExtentCrafts == CompositeExtents \o
  Cat([n \in 1..Len(Compounds) |->
    LET c == Compounds[n] IN
    Cat([w \in 1..2 |->
      LET hs == Huge(c, w = 2) IN
      Cat([h \in 1..Len(hs) |-> << <<c[1], hs[h], "extent">>, <<c[1], hs[h] \o Rep(64, 300), "extent">> >>]) \o
      Cat([d \in 1..Len(Deltas) |-> Cat([k \in 1..Len(Counts) |-> Cat([p \in 1..Len(Pads) |->
        LET b == ExtentForm(c, w = 2, Deltas[d], Counts[k], Pads[p])
            ok == Deltas[d] = 0 \/ Counts[k] = 0 \/ Pads[p] = <<>>
        IN  IF ~ok THEN <<>>
            ELSE [f \in 1..Len(Followed) |-> <<c[1], b \o Followed[f], "extent">>]
                 \o (IF c[1] = TVariant THEN << <<TVariant, Nested(b), "extent">>, << <<"list">>, Nested(b), "extent">> >> ELSE <<>>)])])])])])

(* Frame headers: data offsets, frame types, extended headers.             *)
FrameBodies == << <<>>, <<0, 83, 23, 69>>, <<0, 83, 24, 192, 2, 1, 64>>, <<0, 83, 20, 192, 2, 1, 67, 1, 2, 3>>,
                  <<0, 83, 66, 192, 4, 1, 160, 1, 9>>, <<0, 83, 68, 192, 3, 1, 80, 0>>, <<64>> >>
Offsets == << 0, 1, 2, 3, 4, 5, 16, 63, 64, 65, 66, 127, 128, 129, 192, 254, 255 >>
Fills == << 0, 83, 255 >>
HeaderCrafts ==
  Cat([d \in 1..Len(Offsets) |-> Cat([t \in 1..4 |-> Cat([b \in 1..Len(FrameBodies) |-> Cat([x \in 1..4 |->
    LET doff == Offsets[d]
        type == << 0, 1, 2, 128 >>[t]
        room == 4 * (IF doff < 2 THEN 0 ELSE doff - 2)
        ext == << room, room - 1, (4 * doff) % 256, 0 >>[x]
        fill == Fills[1 + ((d + b) % 3)]
        bytes == <<doff, type, 1, 2>> \o Rep(fill, IF ext < 0 THEN 0 ELSE ext) \o FrameBodies[b]
    IN  IF x > 1 /\ ext = room THEN <<>>
        ELSE << << <<"amqpframe">>, bytes, "header">>, << <<"saslframe">>, bytes, "header">> >>])])])])
  \o [n \in 1..8 |-> << IF n % 2 = 0 THEN <<"amqpframe">> ELSE <<"saslframe">>,
                        SubSeq(<<2, n % 2, 0, 0>>, 1, (n - 1) \div 2), "header">>]

(* Messages with one section's content of the wrong kind, sections out of   *)
(* order and repeated, and unknown sections.                               *)
Sections == TLCEval(SelectSeq(AllNames, LAMBDA n : n \in Unions.Section))
Plain(name) == <<0, 83, CodeOf(name)>> \o Bodies[name]
SectionCrafts ==
  Cat([m \in 1..2 |->
    LET T == MessageTypes[m] IN
    Cat([n \in 1..Len(Sections) |->
      [k \in 1..Len(OneOfEach) |-> <<T, <<0, 83, CodeOf(Sections[n])>> \o OneOfEach[k], "section">>]
      \o Cat([k \in 1..Len(Sections) |->
           << <<T, Plain(Sections[n]) \o Plain(Sections[k]), "section">>,
              <<T, Plain("Data") \o Plain(Sections[n]) \o Plain(Sections[k]), "section">> >>])
      \o LET ms == Misnamed(Sections[n]) IN
         [k \in 1..Len(ms) |-> <<T, <<0>> \o ms[k] \o Bodies[Sections[n]], "section">>]])])

(* Code points at the edges of what is a character, wherever one can be.    *)
CharWords == << <<0, 0, 0, 0>>, <<0, 0, 0, 127>>, <<0, 0, 215, 255>>, <<0, 0, 216, 0>>, <<0, 0, 219, 255>>, <<0, 0, 220, 0>>, <<0, 0, 223, 255>>,
                <<0, 0, 224, 0>>, <<0, 0, 255, 255>>, <<0, 1, 0, 0>>, <<0, 1, 216, 0>>, <<0, 16, 255, 255>>, <<0, 17, 0, 0>>, <<0, 32, 0, 0>>,
                <<1, 0, 0, 65>>, <<127, 255, 255, 255>>, <<128, 0, 0, 65>>, <<255, 255, 255, 255>>, <<0, 17, 223, 255>>, <<65, 0, 0, 0>> >>
CharCrafts ==
  Cat([n \in 1..Len(CharWords) |->
    LET c == CharWords[n]  one == <<115>> \o c IN
    << << <<"char">>, one, "char">>, << <<"opt", <<"char">> >>, one, "char">>, <<TVariant, one, "char">>,
       << <<"list">>, <<192, 8, 3, 64>> \o one \o <<64>>, "char">>, <<TVariant, <<193, 7, 2, 67>> \o one, "char">>,
       <<TVariant, <<193, 7, 2>> \o one \o <<67>>, "char">>, <<TVariant, <<0, 83, 1>> \o one, "char">>,
       <<TAnyMap, <<193, 7, 2>> \o one \o <<64>>, "char">>, <<TFields, <<193, 9, 2, 163, 1, 97>> \o one, "char">>,
       << <<"array", <<"char">> >>, <<224, 6, 1, 115>> \o c, "char">>,
       << <<"array", <<"char">> >>, <<240, 0, 0, 0, 13, 0, 0, 0, 2, 115, 0, 0, 0, 65>> \o c, "char">>,
       <<MessageTypes[1], <<0, 83, 119>> \o one, "char">>, <<MessageTypes[2], <<0, 83, 119>> \o one, "char">>,
       <<MessageTypes[1], <<0, 83, 116, 193, 9, 2, 161, 1, 97>> \o one, "char">>,
       <<MessageTypes[2], <<0, 83, 116, 193, 9, 2, 161, 1, 97>> \o one, "char">> >>])

(* The words the protocol knows and words close to them: cut short, gone on *)
(* with, in other letters, with longer characters within.                  *)
Wide2 == <<195, 169>>
Wide3 == <<226, 130, 172>>
KnownWords == TLCEval(SetToSeq(DOMAIN Conditions \cup DOMAIN DistModes
                \cup UNION {DOMAIN ChoiceTable[c][2] : c \in {x \in DOMAIN ChoiceTable : ChoiceTable[x][1] = "symbol"}}))
Other(c) == IF c \in 97..122 THEN c - 32 ELSE IF c \in 65..90 THEN c + 32 ELSE c
Before(w, n) == SubSeq(w, 1, n)
After(w, n) == SubSeq(w, n + 1, Len(w))
Versions(w) ==
  << w, Before(w, Len(w) - 1), After(w, 1), w \o <<120>>, w \o <<58>>, w \o <<58, 120>>, w \o <<0>>, w \o <<32>>, <<32>> \o w, <<120>> \o w,
     w \o w, [z \in 1..Len(w) |-> Other(w[z])], [w EXCEPT ![1] = Other(@)], [w EXCEPT ![Len(w)] = Other(@)],
     [z \in 1..Len(w) |-> IF w[z] = 45 THEN 95 ELSE IF w[z] = 58 THEN 46 ELSE w[z]] >>
  \o Cat([n \in 1..(Min2(Len(w), 14) + 1) |->
       << Before(w, n - 1) \o Wide2 \o After(w, n - 1), Before(w, n - 1) \o Wide3 \o After(w, n), Before(w, n - 1) >>])
  \o [n \in 1..Len(w) |-> [w EXCEPT ![n] = IF @ % 2 = 0 THEN @ + 1 ELSE @ - 1]]
SymbolForm(b, wide) == (IF wide THEN <<179>> \o U4(Len(b)) ELSE <<163, Len(b)>>) \o b
WordHomes == << <<"cond">>, <<"distmode">>, <<"choice", "TerminusExpiryPolicy">>, <<"symbol">>, TVariant, <<"opt", <<"cond">> >>,
                <<"choice", "AmqpError">>, <<"choice", "ConnectionError">>, <<"choice", "SessionError">>, <<"choice", "LinkError">> >>
WordCrafts ==
  Cat([n \in 1..Len(KnownWords) |->
    LET vs == TLCEval(Uniq(Versions(KnownWords[n]))) IN
    Cat([k \in 1..Len(vs) |->
      LET wide == (n + k) % 4 = 0
          b == TLCEval(SymbolForm(vs[k], wide))
          mine == {h \in 1..Len(WordHomes) : CASE h = 1 -> KnownWords[n] \in DOMAIN Conditions [] h = 2 -> KnownWords[n] \in DOMAIN DistModes
                                              [] h = 3 -> KnownWords[n] \notin DOMAIN DistModes [] h = 6 -> k % 5 = 0
                                              [] h > 6 -> KnownWords[n] \in DOMAIN ChoiceTable[WordHomes[h][2]][2] [] OTHER -> k % 3 = 0}
          hs == TLCEval(SetToSeq(IF k = 1 THEN 1..Len(WordHomes) ELSE mine))
      IN  [h \in 1..Len(hs) |-> <<WordHomes[hs[h]], b, "word">>]
          \o (IF Len(vs[k]) > 120 \/ k % 2 = 0 THEN <<>>
              ELSE << <<TComp("Error"), Described("Error", <<b>>, 1), "word">>,
                      <<TComp("Source"), Described("Source", [z \in 1..7 |-> IF z \in {4, 7} THEN b ELSE <<64>>], 7), "word">> >>)])])
(* Texts that are whole and texts that are not.                            *)
Utfs == << <<127>>, <<128>>, <<191>>, <<192, 128>>, <<193, 191>>, <<194, 128>>, <<194>>, <<194, 65>>, <<223, 191>>, <<224, 159, 191>>, <<224, 160, 128>>,
           <<224, 160>>, <<226, 130, 172>>, <<226, 130>>, <<226, 40, 161>>, <<237, 159, 191>>, <<237, 160, 128>>, <<237, 191, 191>>, <<238, 128, 128>>,
           <<239, 191, 191>>, <<240, 143, 191, 191>>, <<240, 144, 128, 128>>, <<240, 159, 152>>, <<240, 159, 152, 128>>, <<240, 40, 140, 188>>,
           <<244, 143, 191, 191>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<248, 136, 128, 128, 128>>, <<254>>, <<255>>, <<255, 254>>, <<239, 187, 191>>, <<0>> >>
Around == << << <<>>, <<>> >>, << <<97>>, <<>> >>, << <<>>, <<97>> >>, << Text(30), <<97>> >>, << Text(7), Text(300) >> >>
Widest(forms) == forms[Len(forms)]
UtfCrafts ==
  Cat([n \in 1..Len(Utfs) |-> Cat([a \in 1..Len(Around) |->
    LET b == TLCEval(Around[a][1] \o Utfs[n] \o Around[a][2])
        Form(k, wide) == IF wide THEN <<k + 16>> \o U4(Len(b)) \o b ELSE <<k, Len(b)>> \o b
        both(T, k) == (IF Len(b) < 256 THEN << <<T, Form(k, FALSE), "utf">> >> ELSE <<>>) \o << <<T, Form(k, TRUE), "utf">> >>
        str == TLCEval(Form(161, TRUE))  sym == TLCEval(Form(163, TRUE))
    IN  both(<<"string">>, 161) \o both(<<"symbol">>, 163) \o both(TVariant, 161) \o both(TVariant, 163)
        \o << << <<"messageid">>, str, "utf">>, << <<"cond">>, sym, "utf">>, << <<"distmode">>, sym, "utf">>,
              << <<"choice", "TerminusExpiryPolicy">>, sym, "utf">>, <<TSymbols, sym, "utf">>, << <<"descriptor">>, sym, "utf">>,
              <<TVariant, <<0>> \o sym \o <<64>>, "utf">>, << <<"list">>, Widest(ListForms(1, <<str>>)), "utf">>,
              << <<"vecmap">>, Widest(MapForms(2, <<str \o <<64>> >>)), "utf">>, <<TMap(TString, TVariant), Widest(MapForms(2, << str \o str >>)), "utf">>,
              <<TFilterSet, Widest(MapForms(2, << sym \o str >>)), "utf">>,
              << <<"array", TSymbol>>, <<240>> \o U4(5 + 4 + Len(b)) \o U4(1) \o <<179>> \o U4(Len(b)) \o b, "utf">>,
              <<TSymbols, <<240>> \o U4(5 + 4 + Len(b)) \o U4(1) \o <<179>> \o U4(Len(b)) \o b, "utf">> >>])])

Crafts ==
  LET of == [char |-> CharCrafts, word |-> WordCrafts, utf |-> UtfCrafts, kind |-> KindCrafts, field |-> FieldCrafts, element |-> ElementCrafts, foreign |-> ForeignCrafts,
             short |-> ShortCrafts, absent |-> AbsentCrafts, extent |-> ExtentCrafts, header |-> HeaderCrafts,
             section |-> SectionCrafts]
      cs == SetToSeq(Plan.crafts)
  IN  TLCEval(Cat([n \in 1..Len(cs) |-> of[cs[n]]]))
MineCrafted == {n \in 1..Len(Crafts) : n % Shards = Shard}

(* ---------------------------------------------------------------------- *)
(* The exchange                                                            *)
(* ---------------------------------------------------------------------- *)
VARIABLES stage,     \* ready, sent, disturbed, received
          item,      \* the object sent: its number in the catalogue; 0: crafted bytes
          target,    \* the type the receiver decodes as
          wire,      \* the bytes under way
          manner,    \* what has happened to them
          got        \* what the receiver makes of them
vars == <<stage, item, target, wire, manner, got>>

Init == stage = "ready" /\ item = 0 /\ target = <<>> /\ wire = <<>> /\ manner = <<>> /\ got = <<>>

Pick == /\ stage = "ready"
        /\ item' \in Mine
        /\ stage' = "picked"
        /\ target' = Table[item'][1]
        /\ (Written /\ target'[1] # "message") =>
             PrintT(<<"VECTOR", ToJson([op |-> "enc", ty |-> target', val |-> Table[item'][2], note |-> "pick",
                                        pre |-> Rep(170, item' % 3),
                                        tail |-> IF target'[1] \in {"performative", "transfer", "amqpframe", "saslframe"} THEN <<>>
                                                 ELSE Rep(64, item' % 2)])>>)
        /\ UNCHANGED <<wire, manner, got>>
Send == /\ stage = "picked" /\ Plan.moves # {}
        /\ stage' = "sent"
        /\ LET forms == TLCEval(AllEncs(target, Table[item][2]))
           IN  \E n \in 1..Len(forms) : wire' = forms[n] /\ manner' = <<"sent", n = 1 \/ n = Len(forms)>>
        /\ UNCHANGED <<item, target, got>>
Craft == /\ stage = "ready"
         /\ \E n \in MineCrafted :
              /\ target' = Crafts[n][1]
              /\ wire' = Crafts[n][2]
              /\ manner' = <<Crafts[n][3]>>
         /\ stage' = "disturbed"
         /\ UNCHANGED <<item, got>>

Near(n) == LET far == 20 IN IF n <= 2 * far THEN 0..(n - 1) ELSE 0..(far - 1) \cup {n \div 2} \cup (n - 6)..(n - 1)
Suspects == {0, 1, 2, 64, 69, 127, 128, 255, 83, 161, 163, 192, 193, 224}
Disturb ==
  /\ stage = "sent"
  /\ manner[2] \/ Plan.depth > 1      \* the most compact and the widest form; or every form
  /\ stage' = "disturbed"
  /\ \/ /\ "trail" \in Plan.moves
        /\ \E t \in {<<0>>, <<64>>, <<255, 255>>, Rep(83, 9)} : wire' = wire \o t /\ manner' = <<"trail", Len(t)>>
     \/ /\ "cut" \in Plan.moves
        /\ \E n \in Near(Len(wire)) : wire' = SubSeq(wire, 1, n) /\ manner' = <<"cut", n>>
     \/ /\ "corrupt" \in Plan.moves
        /\ \E n \in Near(Len(wire)), b \in Suspects :
             /\ wire[n + 1] # b
             /\ wire' = [wire EXCEPT ![n + 1] = b]
             /\ manner' = <<"corrupt", n, b>>
  /\ UNCHANGED <<item, target, got>>

Vector == [op |-> "dec", ty |-> target, in |-> wire, note |-> manner[1]]
Single == manner[1] \in {"kind", "field", "element", "foreign", "short", "absent", "section", "char", "word", "utf"}
Receive ==
  /\ stage = "disturbed" \/ (stage = "sent" /\ "send" \in Plan.moves)
  /\ stage' = "received"
  /\ got' = TLCEval(Decode(target, wire))
  /\ Exported => PrintT(<<"VECTOR", ToJson(IF Single THEN Vector @@ [single |-> TRUE] ELSE Vector)>>)
  /\ UNCHANGED <<item, target, wire, manner>>

Next == Pick \/ Send \/ Craft \/ Disturb \/ Receive
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------------- *)
(* What must hold                                                          *)
(* ---------------------------------------------------------------------- *)
Done == stage = "received"
How == manner[1]
Sent == Table[item][2]
(* A type whose values know their own end. *)
Closed == target[1] \notin {"performative", "transfer", "amqpframe", "message"}

AllBytes == Done => \A n \in 1..Len(wire) : wire[n] \in 0..255

(* Every legal encoding, undisturbed, means the object sent, and nothing of *)
(* it is left.                                                             *)
Faithful == Done /\ How = "sent" =>
  IsOk(got) /\ ~got[4] /\ got[3] = Len(wire) + 1 /\ ValEq(Sent, got[2])
(* What follows an encoding does not change its meaning.                   *)
SelfDelimiting == Done /\ How = "trail" =>
  IsOk(got) /\ ~got[4] /\ got[3] = Len(wire) + 1 - manner[2] /\ ValEq(Sent, got[2])
(* A proper prefix of an encoding is not an encoding: the receiver must     *)
(* notice that bytes are missing, and must not blame anything else.        *)
PrefixFree == Done /\ How = "cut" /\ Closed => IsErr(got) /\ got[2] = "length"
(* Whatever arrives, decoding ends within the input.                       *)
Bounded == Done => /\ got[1] \in {"ok", "err", "deep"}
                   /\ IsOk(got) => got[3] >= 1 /\ got[3] <= Len(wire) + 1
(* What is understood can be said again: encoding and decoding once more    *)
(* gives the same value.                                                   *)
Sayable(T, v) == ~(T[1] = "union" /\ T[2] = "Section")
                 /\ ~(T[1] = "array" /\ v[2] = <<>>) /\ ~(T[1] = "opt" /\ T[2][1] = "array")
Normal == Done /\ IsOk(got) /\ How \in {"corrupt", "field", "element", "foreign", "kind", "extent", "short", "absent", "header", "char", "word", "utf"}
               /\ Sayable(target, got[2]) =>
  LET b == Enc(target, got[2])  r == Decode(target, b)
  IN  IsOk(r) /\ (r[4] => got[4]) /\ r[3] = Len(b) + 1 /\ ValEq(got[2], r[2])

(* Mandatory fields are demanded, in their order, and others are not.       *)
FirstMandatory(name, n) ==     \* the first mandatory field beyond the n-th, if any
  LET fs == Composites[name].fields
      ms == {z \in (n + 1)..Len(fs) : fs[z][3] = "req"}
  IN  IF ms = {} THEN 0 ELSE CHOOSE z \in ms : \A y \in ms : z <= y
Demanded == Done /\ How = "short" =>
  LET name == CHOOSE n \in DOMAIN Composites : CodeOf(n) = wire[3]
      count == CASE wire[4] = 69 -> 0 [] wire[4] = 192 -> wire[6] [] OTHER -> wire[12]
      z == FirstMandatory(name, count)
  IN  IF z = 0 THEN IsOk(got) /\ ~got[4]
      ELSE IsErr(got) /\ got[2] = "required" /\ got[3] = Composites[name].fields[z][1]
(* A null stands for a default or for absence, and for no mandatory field.  *)
Nullable == Done /\ How = "absent" =>
  LET name == CHOOSE n \in DOMAIN Composites : CodeOf(n) = wire[3]
  IN  IF IsOk(got) THEN /\ ~got[4]
                        /\ \A z \in 1..Len(Composites[name].fields) :
                             Composites[name].fields[z][3] # "opt" => got[2][2][z] # NullV
      ELSE got[2] = "code" /\ got[3] = "64"

(* A kind that a type does not take is refused by name.                    *)
TakesCode(T, c) ==      \* can a value of type T begin with format code c?
  LET k == KindOf(c) IN
  CASE T[1] = "variant" -> k \notin {"none", "array"}
    [] T[1] = "opt" -> IF c = 64 THEN TRUE ELSE IF T[2][1] = "choice" THEN k = "bool"
                       ELSE IF T[2][1] = "comp" THEN c = 0 ELSE IF T[2] = TSymbols THEN k \in {"symbol", "array"}
                       ELSE IF T[2][1] = "map" THEN k = "map" ELSE k = T[2][1]
    [] T[1] \in {"map", "vecmap"} -> k = "map"
    [] T[1] = "multiple" -> k \in {"array", "symbol"}
    [] T[1] = "descriptor" -> k \in {"ulong", "symbol"}
    [] T[1] = "messageid" -> k \in {"ulong", "uuid", "binary", "string"}
    [] T[1] \in {"cond", "distmode"} -> k = "symbol"
    [] T[1] = "choice" -> k = ChoiceTable[T[2]][1]
    [] T[1] \in {"comp", "union", "performative", "transfer", "message"} -> c = 0
    [] OTHER -> k = T[1]
ByKind == Done /\ How = "kind" /\ target[1] \notin {"amqpframe", "saslframe"} =>
  IF TakesCode(target, wire[1]) THEN IsOk(got) \/ got[2] # "code" \/ got[3] # ToString(wire[1]) \/ wire[1] = 0
  ELSE IsErr(got) /\ got[2] = "code" /\ got[3] = ToString(wire[1])

(* An extent is skipped as declared: the value ends where its size says.    *)
DeclaredEnd == Done /\ How = "extent" /\ IsOk(got) /\ wire[1] \in {192, 193, 224} => got[3] = wire[2] + 3
DeclaredEnd4 == Done /\ How = "extent" /\ IsOk(got) /\ wire[1] \in {208, 209, 240} => got[3] = BE4(wire, 2) + 6
Within == Done /\ How = "extent" /\ wire[1] \in {192, 193, 224} /\ wire[2] + 2 > Len(wire) => IsErr(got)

(* A word is one of those the protocol knows only if it is just that word;  *)
(* another is refused where only known words can be, and kept otherwise.    *)
Worded == Done /\ How = "word" /\ target[1] \in {"cond", "distmode", "choice"} =>
  LET b == IF wire[1] = 163 THEN After(wire, 2) ELSE After(wire, 5) IN
  CASE target[1] = "cond" -> IsOk(got) /\ got[2] = CondValue(b) /\ (got[2][1] = "custom-cond" <=> b \notin DOMAIN Conditions)
    [] target[1] = "distmode" -> IsOk(got) /\ got[2] = DistValue(b) /\ (got[2][1] = "custom-distmode" => got[2][2] = b)
    [] OTHER -> IF b \in DOMAIN ChoiceTable[target[2]][2] THEN IsOk(got) ELSE IsErr(got) /\ got[2] # "utf8"
(* A text is refused if and only if it is not whole.                       *)
Textual == Done /\ How = "utf" /\ target \in { <<"string">>, <<"symbol">> } =>
  LET b == IF wire[1] < 176 THEN After(wire, 2) ELSE After(wire, 5) IN IsOk(got) = Utf8(b, 1, Len(b)) /\ (IsErr(got) => got[2] = "utf8")
(* So is a character.                                                      *)
Charred == Done /\ How = "char" /\ target = <<"char">> =>
  LET hi == 256 * wire[2] + wire[3]  lo == 256 * wire[4] + wire[5] IN
  IsOk(got) = (hi <= 16 /\ ~(hi = 0 /\ lo \in 55296..57343))

(* A frame's header says where its body is and whose it is.                *)
Headed == Done /\ How = "header" =>
  IF Len(wire) < 4 THEN IsErr(got)
  ELSE LET mine == wire[2] = (IF target[1] = "amqpframe" THEN 0 ELSE 1) IN
       /\ wire[1] < 2 => IsErr(got)
       /\ ~mine => IsErr(got)
       /\ 4 * wire[1] - 4 > Len(wire) => IsErr(got)
       /\ IsOk(got) /\ target[1] = "amqpframe" => got[2][2][1] = <<"ushort", <<wire[3], wire[4]>>>>
=============================================================================
