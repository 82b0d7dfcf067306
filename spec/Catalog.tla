------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* A finite catalogue of values of every type, for exhaustive exploration: *)
(* every scalar at the edges of each of its encodings, every composite     *)
(* with each field absent, at its default and at other values, every       *)
(* member of every union, every legal choice.                              *)
(*                                                                         *)
(* Samples(T, n): values of type T; n = 0 asks for a few, n = 1 for the     *)
(* usual ones, n = 2 for all there are.                                    *)
(***************************************************************************)
EXTENDS AmqpEncode

Rep(b, n) == TLCEval([x \in 1..n |-> b])
Text(n) == TLCEval([x \in 1..n |-> 96 + ((x - 1) % 26) + 1])
Uniq(xs) == FoldLeft(LAMBDA acc, x : IF \E z \in 1..Len(acc) : acc[z] = x THEN acc ELSE Append(acc, x), <<>>, xs)

(* The edges of w-byte words: of one-byte, sign-extended and full forms.    *)
Words(w) ==
  IF w = 1 THEN << <<0>>, <<1>>, <<127>>, <<128>>, <<255>> >>
  ELSE Uniq(<< Zeros(w), Ext(0, w, 1), Ext(0, w, 127), Ext(0, w, 128), Ext(0, w, 255),
               Zeros(w - 2) \o <<1, 0>>, <<127>> \o Rep(255, w - 1), <<128>> \o Zeros(w - 1),
               Rep(255, w), Ext(255, w, 128), Ext(255, w, 127), Ext(255, w, 0),
               TLCEval([x \in 1..w |-> x]) >>)
ScalarWords ==
     ("bool" :> << <<0>>, <<1>> >>)
  @@ ("float" :> << <<0,0,0,0>>, <<128,0,0,0>>, <<63,128,0,0>>, <<127,128,0,0>>, <<127,192,0,0>>,
                    <<255,128,0,1>>, <<0,0,0,1>>, <<66,246,230,102>> >>)
  @@ ("double" :> << Zeros(8), <<128>> \o Zeros(7), <<63,240,0,0,0,0,0,0>>, <<127,240,0,0,0,0,0,0>>,
                     <<127,248,0,0,0,0,0,0>>, <<255,240,0,0,0,0,0,1>>, Ext(0, 8, 1) >>)
  @@ ("char" :> << <<0,0,0,0>>, <<0,0,0,65>>, <<0,0,7,255>>, <<0,0,215,255>>, <<0,0,224,0>>,
                   <<0,1,0,0>>, <<0,16,255,255>> >>)
  @@ ("timestamp" :> << Zeros(8), Ext(0, 8, 1), Ext(255, 8, 255), <<0,0,1,87,17,50,219,128>>,
                        <<0,0,230,119,210,31,219,255>>, <<255,255,199,124,237,211,40,0>> >>)
  @@ ("uuid" :> << Zeros(16), Rep(255, 16), TLCEval([x \in 1..16 |-> x]) >>)
  @@ [k \in {"ubyte", "byte"} |-> Words(1)]
  @@ [k \in {"ushort", "short"} |-> Words(2)]
  @@ [k \in {"uint", "int"} |-> Words(4)]
  @@ [k \in {"ulong", "long"} |-> Words(8)]
BlobBytes == << <<>>, <<65>>, <<0, 255, 128>>, <<1, 2>>, <<0, 0, 0, 65>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, TLCEval([x \in 1..16 |-> x]), Rep(0, 20),
                Rep(7, 255), Rep(7, 256) >>
(* Blobs that look like something: counted bytes, values, sections, frames, *)
(* headers.  As contents they are bytes like any others.                   *)
Telling == << <<0>>, <<64>>, <<69>>, <<0, 0>>, <<1, 7>>, <<160, 1, 7>>, <<0, 0, 0, 0>>, <<0, 0, 0, 1, 7>>, <<0, 0, 0, 5, 7>>, <<176, 0, 0, 0, 1, 7>>,
              <<255, 255, 255, 255>>, <<192, 1, 0>>, <<0, 83, 112, 69>>, <<0, 83, 117, 160, 1, 7>>, <<0, 83, 119, 64>>, <<0, 83, 20, 192, 3, 1, 82, 7>>,
              <<0, 0, 0, 8, 2, 0, 0, 0>>, <<65, 77, 81, 80, 0, 1, 0, 0>>, <<0, 0, 0, 12, 2, 0, 0, 0, 0, 83, 24, 69>>, <<13, 10>>, <<32, 32>> >>
TextBytes == << <<>>, <<97, 98>>, <<195, 169>>, <<226, 130, 172, 240, 159, 152, 128>>, Text(255), Text(256) >>
SymbolBytes == << <<>>, <<97, 98>>, <<97, 109, 113, 112>>, Text(255), Text(256) >>

(* n = 0: the first two; n = 1: the first few; n = 2: all. *)
Some(xs, n) == IF n = 2 THEN xs ELSE SubSeq(xs, 1, Min2(Len(xs), IF n = 0 THEN 2 ELSE 3))
Tag(k, xs) == [z \in 1..Len(xs) |-> <<k, xs[z]>>]
Wrap(k, xs) == [z \in 1..Len(xs) |-> <<k, <<xs[z]>>>>]

Leaves(k, n) == IF k \in DOMAIN ScalarWords THEN Tag(k, Some(ScalarWords[k], n))
                ELSE IF k = "binary" THEN Tag(k, Some(BlobBytes, n))
                ELSE IF k = "string" THEN Tag(k, Some(TextBytes, n))
                ELSE Tag("symbol", Some(SymbolBytes, n))
LeafNames == << "bool", "ubyte", "ushort", "uint", "ulong", "byte", "short", "int", "long", "float",
                "double", "char", "timestamp", "uuid", "binary", "string", "symbol" >>
SomeUint == <<"uint", <<0, 0, 1, 0>>>>
SomeText == <<"string", <<195, 169>>>>
SomeSym  == <<"symbol", <<97, 58, 98>>>>
AList == <<"list", << SomeUint, <<"null", <<>>>>, SomeText >>>>
AMap  == <<"map", << <<SomeSym, <<"list", <<>>>>>>, << <<"ulong", Zeros(8)>>, SomeSym >> >>>>
ADesc == <<"desc", << <<"ulong", Zeros(7) \o <<119>>>>, SomeText >>>>
BDesc == <<"desc", << SomeSym, <<"desc", << <<"ulong", <<1,2,3,4,5,6,7,8>>>>, AList >>>> >>>>
Variants(n) ==
  IF n = 0 THEN << <<"null", <<>>>>, SomeUint >>
  ELSE IF n = 1 THEN << <<"null", <<>>>>, SomeText, AList, ADesc >>
  ELSE << <<"null", <<>>>> >> \o Cat([z \in 1..Len(LeafNames) |-> Leaves(LeafNames[z], 2)])
       \o << <<"list", <<>>>>, AList, <<"list", <<AList, AMap, ADesc>>>>, <<"list", Rep(SomeUint, 51)>>,
             <<"map", <<>>>>, AMap, <<"map", << <<AMap, AList>> >>>>,
             <<"map", << << <<"string", Text(120)>>, <<"binary", Rep(9, 130)>> >> >>>>,
             ADesc, BDesc >>

Customs(k) == << <<k, <<120, 58, 121>>>>, <<k, <<>>>> >>
PickRange(f, n) == LET xs == SetToSeq({f[k] : k \in DOMAIN f}) IN IF n = 2 THEN xs ELSE SubSeq(xs, 1, 1)

(* The least value of a composite, and that with one field at a sample.    *)
RECURSIVE Samples(_, _), LeastOf(_)
LeastOf(T) == Samples(T, 0)[1]
Least(name) ==
  LET fs == Composites[name].fields
  IN  [z \in 1..Len(fs) |-> CASE fs[z][3] = "req" -> LeastOf(fs[z][2])
                              [] fs[z][3] = "opt" -> NullV
                              [] OTHER -> fs[z][4]]
CompSamples(name, n) ==
  LET fs   == Composites[name].fields
      base == TLCEval(Least(name))
      one(z) == LET xs == Samples(fs[z][2], IF n = 2 THEN 1 ELSE 0)
                IN  [y \in 1..Len(xs) |-> [base EXCEPT ![z] = xs[y]]]
      full == [z \in 1..Len(fs) |-> LET xs == Samples(fs[z][2], IF n = 2 THEN 1 ELSE 0) IN xs[Len(xs)]]
      vs   == IF n = 0 THEN <<base>>
              ELSE <<base>> \o Cat([z \in 1..Len(fs) |-> one(z)]) \o <<full>>
  IN  Uniq(Tag(name, vs))
SectionSamples(name, n) ==
  IF name \in DOMAIN SimpleSections THEN Wrap(name, Samples(SimpleSections[name].type, n))
  ELSE CompSamples(name, n)
UnionSamples(u, n) ==
  LET ms == SetToSortSeq(Unions[u], LAMBDA a, b : CodeOf(a) < CodeOf(b))
      take == IF n = 0 THEN SubSeq(ms, 1, 2) ELSE ms
  IN  Cat([z \in 1..Len(take) |-> SectionSamples(take[z], IF n = 2 THEN 2 ELSE 0)])
Transfers(n) ==
  LET cs == CompSamples("Transfer", n) IN
  Cat([z \in 1..Len(cs) |-> << <<"Transfer", Append(cs[z][2], NullV)>>,
                               <<"Transfer", Append(cs[z][2], <<"binary", <<0, 83, 117, 160, 1, 7>>>>)>> >>])
  \o (IF n = 0 THEN <<>> ELSE [z \in 1..Len(Telling) |-> <<"Transfer", Append(cs[1][2], <<"binary", Telling[z]>>)>>])
Performatives(n) ==
  LET ms == SetToSortSeq(Unions.Performative, LAMBDA a, b : CodeOf(a) < CodeOf(b))
      of(name) == IF name # "Transfer" THEN CompSamples(name, n) ELSE Transfers(n)
  IN  <<EmptyFrame>> \o Cat([z \in 1..Len(ms) |-> of(ms[z])])
PairSamples(K, V, n) ==
  LET ks == Samples(K, 1)  vs == Samples(V, IF n = 2 THEN 1 ELSE 0) IN
  << <<>> >> \o [z \in 1..Len(vs) |-> << <<ks[1], vs[z]>> >>]
  \o << << <<ks[1], vs[1]>>, <<ks[2], vs[Len(vs)]>> >> >>
Messages(n) ==
  LET ms == << [EmptyMsg EXCEPT !.Data = << <<"binary", <<>>>> >>],
               [EmptyMsg EXCEPT !.AmqpValue = << SomeText >>],
               [EmptyMsg EXCEPT !.AmqpSequence = << AList, <<"list", <<>>>> >>],
               [EmptyMsg EXCEPT !.Data = << <<"binary", <<1>>>>, <<"binary", <<2, 3>>>> >>],
               [EmptyMsg EXCEPT !.Header = <<"Header", Least("Header")>>],
               [EmptyMsg EXCEPT !.Properties = <<"Properties", [Least("Properties") EXCEPT ![1] = SomeText]>>,
                                !.AmqpValue = << AMap >>],
               [EmptyMsg EXCEPT !.ApplicationProperties = <<"map", << <<SomeText, SomeUint>> >>>>,
                                !.Footer = <<"map", << <<SomeSym, AList>> >>>>],
               [EmptyMsg EXCEPT !.DeliveryAnnotations = <<"map", <<>>>>,
                                !.MessageAnnotations = <<"map", << <<SomeSym, NullV>> >>>>],
               [ Header |-> <<"Header", [Least("Header") EXCEPT ![3] = SomeUint]>>,
                 DeliveryAnnotations |-> <<"map", << <<SomeSym, SomeUint>> >>>>,
                 MessageAnnotations |-> <<"map", << <<SomeSym, ADesc>> >>>>,
                 Properties |-> <<"Properties", [Least("Properties") EXCEPT ![1] = <<"ulong", Zeros(8)>>]>>,
                 ApplicationProperties |-> <<"map", << <<SomeText, NullV>> >>>>,
                 Footer |-> <<"map", <<>>>>,
                 Data |-> << <<"binary", <<9, 9>>>> >>, AmqpSequence |-> << AList >>,
                 AmqpValue |-> << SomeText >> ] >>
  IN  [z \in 1..Len(ms) |-> MsgValue(ms[z])]

Samples(T, n) ==
  CASE T[1] \in ScalarKinds \cup {"binary", "string", "symbol"} -> Leaves(T[1], n)
    [] T[1] = "variant" -> Variants(n)
    [] T[1] = "opt" -> <<NullV>> \o Samples(T[2], n)
    [] T[1] = "list" -> << <<"list", <<>>>>, AList >>
                        \o IF n = 2 THEN << <<"list", << AMap, BDesc, <<"list", <<>>>> >>>>,
                                            <<"list", Rep(NullV, 255)>>, <<"list", Rep(NullV, 256)>> >> ELSE <<>>
    [] T[1] = "map" -> Tag("map", PairSamples(T[2], T[3], n))
    [] T[1] = "vecmap" -> Tag("vecmap", PairSamples(TString, TVariant, n))
    [] T[1] = "array" -> LET xs == Samples(T[2], IF n = 2 THEN 2 ELSE 1) IN
                         Wrap("array", xs) \o << <<"array", xs>>, <<"array", Rep(xs[1], IF n = 2 THEN 256 ELSE 3)>> >>
    [] T[1] = "multiple" -> LET xs == Samples(T[2], 1) IN
                            << <<"multiple", <<xs[2]>>>>, <<"multiple", <<>>>>, <<"multiple", xs>> >>
    [] T[1] = "descriptor" -> Leaves("ulong", n) \o Leaves("symbol", n)
    [] T[1] = "messageid" -> Leaves("ulong", n) \o Leaves("uuid", 0) \o Leaves("binary", n) \o Leaves("string", n)
    [] T[1] = "cond" -> Tag("cond", PickRange(Conditions, n)) \o Customs("custom-cond")
    [] T[1] = "distmode" -> Wrap("distmode", PickRange(DistModes, n)) \o Customs("custom-distmode")
    [] T[1] = "choice" -> LET r == PickRange(ChoiceTable[T[2]][2], 2) IN
                          [z \in 1..Len(r) |-> Choice(T[2], r[z])]
    [] T[1] = "comp" -> CompSamples(T[2], n)
    [] T[1] = "union" -> UnionSamples(T[2], n)
    [] T[1] = "performative" -> Performatives(n)
    [] T[1] = "transfer" -> Transfers(n)
    [] T[1] = "amqpframe" ->
         LET ps == Performatives(IF n = 2 THEN 1 ELSE 0) IN
         [z \in 1..Len(ps) |-> <<"frame", << <<"ushort", <<(z * 37) % 256, z % 256>>>>, ps[z]>>>>]
    [] T[1] = "saslframe" ->
         LET ps == UnionSamples("SaslFrameBody", n) IN [z \in 1..Len(ps) |-> <<"saslframe", <<ps[z]>>>>]
    [] T[1] = "message" -> Messages(n)

(* The types an implementation offers on their own. *)
Basic == [z \in 1..Len(LeafNames) |-> <<LeafNames[z]>>]
Maps == << TMap(TSymbol, TVariant), TMap(TString, TVariant), TAnyMap, TFilterSet, TMap(TUint, TString),
           TMap(TUlong, TBinary), <<"vecmap">> >>
Arrays == [z \in 1..Len(Basic) |-> <<"array", Basic[z]>>] \o << <<"array", TMap(TSymbol, TVariant)>> >>
ChoiceNames == << "Role", "SenderSettleMode", "ReceiverSettleMode", "SaslCode", "TerminusDurability",
                  "TerminusExpiryPolicy", "AmqpError", "ConnectionError", "SessionError", "LinkError" >>
Restricted == [z \in 1..Len(ChoiceNames) |-> TChoice(ChoiceNames[z])] \o << TMessageId, TCond, TDistMode >>
CompNames == SetToSortSeq(DOMAIN Composites \ {"Transfer"}, LAMBDA a, b : CodeOf(a) < CodeOf(b))
CompTypes == [z \in 1..Len(CompNames) |-> TComp(CompNames[z])]
UnionTypes == << TUnion("DeliveryState"), TUnion("Outcome"), TUnion("SaslFrameBody"), TUnion("Section") >>
Options == << TOpt(TUint), TOpt(TString), TOpt(TChoice("Role")), TOpt(TComp("Error")), TOpt(<<"list">>),
              TOpt(TSymbols), TOpt(TFields) >>
ValueTypes == << TVariant, <<"list">> >> \o Basic \o Maps \o Arrays \o Restricted \o << TSymbols >>
FrameTypes == << <<"performative">>, <<"transfer">>, <<"amqpframe">>, <<"saslframe">> >>
MessageTypes == << <<"message", "in">>, <<"message", "out">> >>
AllTypes == ValueTypes \o << <<"descriptor">> >> \o Options \o CompTypes \o UnionTypes \o FrameTypes \o MessageTypes

TypesNamed == [ values |-> ValueTypes, options |-> Options \o << <<"descriptor">> >>,
                composites |-> CompTypes \o UnionTypes, frames |-> FrameTypes, messages |-> MessageTypes,
                restricted |-> Restricted, scalars |-> Basic, compounds |-> << TVariant, <<"list">> >> \o Maps \o Arrays \o << TSymbols >> ]
(* All <<type, value>> of some groups of types. *)
Items(groups, n) ==
  Cat([y \in 1..Len(groups) |->
    LET ts == TypesNamed[groups[y]] IN
    Cat([z \in 1..Len(ts) |-> LET xs == Samples(ts[z], n) IN [x \in 1..Len(xs) |-> <<ts[z], xs[x]>>]])])
=============================================================================
