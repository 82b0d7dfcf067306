-------------------------------- MODULE Grow --------------------------------
(***************************************************************************)
(* Input that grows: a receiver of a known type sees first a head          *)
(* (constructor, size, count, descriptor), then one piece after another.   *)
(* After each piece it decodes what is there.                              *)
(*                                                                         *)
(* This enumerates inputs from small pieces without asking whether they    *)
(* make sense, where Exchange starts from sensible objects.                *)
(*                                                                         *)
(* Checked: a verdict stands (Stands: once decoded or refused for another  *)
(* reason than length, more input changes nothing), a value ends within    *)
(* the input and at its declared extent (Ends), and understood values can  *)
(* be said again (Again).                                                  *)
(***************************************************************************)
EXTENDS Catalog, Json, IOUtils

Number(str) == CHOOSE n \in 0..1023 : ToString(n) = str
Shard == TLCEval(Number(IOEnv.SHARD))
Shards == TLCEval(Number(IOEnv.SHARDS))
Seed == TLCEval(Number(IOEnv.SEED))
Thin == TLCEval(Number(IOEnv.THIN))     \* one of so many of the long inputs
Plan == IOEnv.PLAN                      \* compounds, arrays, described, codes, headers

(* ---------------------------------------------------------------------- *)
(* Heads and pieces                                                        *)
(* ---------------------------------------------------------------------- *)
Small(code) ==     \* size and count in a byte each
  Cat([x \in 1..8 |-> LET size == <<0, 1, 2, 3, 4, 5, 7, 255>>[x] IN
     [y \in 1..5 |-> <<code, size, <<0, 1, 2, 3, 255>>[y]>>]])
Large(code) ==     \* in four
  Cat([x \in 1..7 |-> LET size == <<0, 3, 4, 5, 6, 8, 255>>[x] IN
     [y \in 1..4 |-> <<code>> \o (IF size = 255 THEN <<255, 255, 255, 255>> ELSE <<0, 0, 0, size>>)
                              \o (<< <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 2>>, <<128, 0, 0, 0>> >>)[y]]])
ListHeads == << <<69>> >> \o Small(192) \o Large(208)
MapHeads == Small(193) \o Large(209)
ArrayHeads == Small(224) \o Large(240)
Pieces == << <<64>>, <<65>>, <<86, 2>>, <<80, 7>>, <<67>>, <<82, 1>>, <<68>>, <<83, 1>>, <<84, 255>>, <<161, 1, 97>>, <<161, 1>>,
             <<163, 1, 98>>, <<160, 0>>, <<69>>, <<192, 1, 0>>, <<193, 1, 0>>, <<193, 3, 2, 163>>, <<0, 83, 1, 64>>, <<0>>, <<1>>, <<255>>,
             <<192, 2, 1, 64>>, <<224, 2, 0, 163>>, <<112, 0, 0, 0, 9>> >>
Ctors == << 64, 65, 66, 86, 80, 67, 82, 112, 68, 83, 84, 85, 97, 113, 114, 115, 131, 152, 160, 161, 163, 176, 177, 179, 69, 192, 193, 224, 0, 1 >>
Bodies == << <<0>>, <<1>>, <<97>>, <<255>>, <<0, 0>>, <<1, 97>>, <<0, 0, 0, 1>>, <<1, 0>> >>

Names == TLCEval(SetToSortSeq(DOMAIN Composites \cup DOMAIN SimpleSections, LAMBDA a, b : CodeOf(a) < CodeOf(b)))
DescriptorsOf(name) ==
  LET c == CodeOf(name)  s == SymOf(name) IN
  << <<0, 83, c>>, <<0, 128>> \o Ext(0, 8, c), <<0, 163, Len(s)>> \o s, <<0, 179>> \o U4(Len(s)) \o s,
     <<0, 82, c>>, <<0, 161, Len(s)>> \o s, <<0, 163, Len(s) - 1>> \o SubSeq(s, 1, Len(s) - 1), <<0, 163, Len(s) + 1>> \o s \o <<97>>,
     <<0, 83, (c + 1) % 256>>, <<0, 128>> \o Ext(255, 8, c), <<0, 128, 1>> \o Ext(0, 7, c), <<0, 0, 83, c>>, <<0, 80, c>>, <<83, c>> >>
Strangers == << <<0, 68>>, <<0, 67>>, <<0, 64>>, <<0>>, <<0, 83>>, <<0, 163, 0>>, <<0, 83, 0>>, <<0, 83, 255>> >>
DescribedTypes == TLCEval(CompTypes \o UnionTypes \o << <<"performative">>, <<"transfer">>, TVariant, TOpt(TComp("Error")) >>)
FieldHeads == << <<69>>, <<192, 1, 0>>, <<192, 2, 1>>, <<192, 3, 2>>, <<192, 4, 2>>, <<192, 5, 3>>, <<192, 6, 4>>, <<192, 8, 5>>, <<208, 0, 0, 0, 4, 0, 0, 0, 0>>,
                 <<208, 0, 0, 0, 6, 0, 0, 0, 2>>, <<208, 0, 0, 0, 8, 0, 0, 0, 3>>, <<193, 1, 0>>, <<64>>, <<192, 3, 0>>, <<224, 2, 1, 64>>,
                 <<160, 1, 0>>, <<161, 0>>, <<192, 0, 0>>, <<192>> >>

Types == TLCEval(CASE Plan = "compounds" -> << TVariant, <<"list">>, TOpt(<<"list">>) >> \o Maps \o << TOpt(TFields) >>
                   [] Plan = "arrays" -> Arrays \o << TSymbols, TVariant, TOpt(TSymbols) >>
                   [] Plan = "described" -> DescribedTypes
                   [] Plan = "headers" -> << <<"amqpframe">>, <<"saslframe">> >>
                   [] OTHER -> AllTypes)
ForList(T) == T = TVariant \/ T[1] = "list" \/ T = TOpt(<<"list">>)
ForMap(T) == T = TVariant \/ T[1] \in {"map", "vecmap"} \/ T = TOpt(TFields)
Heads(T) ==
  CASE Plan = "compounds" -> (IF ForList(T) THEN ListHeads ELSE <<>>) \o (IF ForMap(T) THEN MapHeads ELSE <<>>)
    [] Plan = "arrays" -> ArrayHeads
    [] Plan = "described" -> Strangers \o Cat([n \in 1..Len(Names) |-> DescriptorsOf(Names[n])])
    [] OTHER -> [c \in 1..256 |-> <<c - 1>>]
(* Frames, byte by byte: data offset, type, channel, extended header, body. *)
Offsets == << 0, 1, 2, 3, 4, 5, 17 >>
HeaderByte(n, b) ==
  LET at == Len(b) IN
  CASE at = 0 -> [z \in 1..Len(Offsets) |-> <<Offsets[z]>>]
    [] at = 1 -> << <<0>>, <<1>>, <<2>> >>
    [] at = 2 -> << <<0>>, <<130>> >>
    [] at = 3 -> << <<7>> >>
    [] at < b[1] * 4 - 4 -> IF at = 4 THEN << <<0>>, <<83>> >> ELSE << <<(at * 83) % 256>> >>
    [] OTHER -> << <<0, 83>>, <<16>>, <<17>>, <<20>>, <<65>>, <<68>>, <<192>>, <<69>>, <<4, 1, 160, 1>>, <<97>>, <<3, 1, 80, 4>>, <<64>> >>
HeadTable == TLCEval([n \in 1..Len(Types) |-> Heads(Types[n])])

Levels == CASE Plan = "compounds" -> 4 [] Plan = "arrays" -> 5 [] Plan = "described" -> 4 [] Plan = "headers" -> 80 [] OTHER -> 2
FillersOf(c) == << Zeros(16), <<1>>, Ext(0, 8, 1), Rep(255, 20) >>
PiecesAfter(n, level, b) ==
  CASE Plan = "headers" -> HeaderByte(n, b)
    [] level = 1 -> HeadTable[n]
    [] Plan = "compounds" -> Pieces
    [] Plan = "arrays" -> IF level = 2 THEN [c \in 1..Len(Ctors) |-> <<Ctors[c]>>] ELSE Bodies
    [] Plan = "described" -> IF level = 2 THEN FieldHeads ELSE Pieces
    [] OTHER -> FillersOf(b[1])

(* ---------------------------------------------------------------------- *)
(* Growing                                                                 *)
(* ---------------------------------------------------------------------- *)
VARIABLES kindno,   \* the type's number
          grown,    \* the input so far
          steps,    \* pieces taken
          verdict   \* of the specification
vars == <<kindno, grown, steps, verdict>>
Init == kindno \in 1..Len(Types) /\ grown = <<>> /\ steps = 0 /\ verdict = Err("length")
Sum(b) == FoldLeft(LAMBDA a, n : (a * 31 + b[n]) % 65521, 7, [n \in 1..Len(b) |-> n])
BodyLen(b) == IF b = <<>> THEN 0 ELSE Len(b) - (b[1] * 4 - 4)
Kept(level, b) == CASE Plan = "headers" -> (level = 1 => (b[1] + 2 * kindno) % Shards = Shard) /\ BodyLen(b) < 12
                                           /\ (BodyLen(b) > 3 => (Sum(b) + Seed) % Thin = 0)
                    [] level = 1 -> Sum(b) % Shards = Shard
                    [] level = 2 /\ Plan \in {"described", "codes"} -> Plan = "codes" \/ (Sum(b) + kindno + Seed) % Thin = 0
                    [] level >= 3 -> (Sum(b) + kindno + Seed) % Thin = 0
                    [] OTHER -> TRUE
(* A frame's body is never known to be over. *)
Open == IF verdict[1] = "err" THEN verdict[2] = "length" ELSE Plan = "headers"
Piece == /\ Open /\ steps < Levels
         /\ \E x \in 1..Len(PiecesAfter(kindno, steps + 1, grown)) :
              LET b == grown \o PiecesAfter(kindno, steps + 1, grown)[x] IN
              /\ Kept(steps + 1, b)
              /\ grown' = b
              /\ verdict' = TLCEval(Decode(Types[kindno], b))
              /\ PrintT(<<"VECTOR", ToJson([op |-> "dec", ty |-> Types[kindno], in |-> b, note |-> "grown"])>>)
         /\ steps' = steps + 1
         /\ UNCHANGED kindno
Next == Piece
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------------- *)
(* What must hold                                                          *)
(* ---------------------------------------------------------------------- *)
Closed == Types[kindno][1] \notin {"performative", "transfer", "amqpframe", "saslframe", "message"}
Stands == steps > 0 /\ ~Open /\ Closed =>
  \A x \in {0, 64, 255} : LET r == Decode(Types[kindno], Append(grown, x)) IN
    r[1] = verdict[1] /\ (IsOk(r) => r = verdict) /\ (IsErr(r) => r[2] = verdict[2])
Ends == IsOk(verdict) =>
  /\ verdict[3] \in 1..(Len(grown) + 1)
  /\ grown # <<>> /\ grown[1] \in {192, 193, 224} /\ Closed => verdict[3] = grown[2] + 3
  /\ grown # <<>> /\ grown[1] \in {208, 209, 240} /\ Closed => verdict[3] = BE4(grown, 2) + 6
Sayable(T, v) == ~(T[1] = "union" /\ T[2] = "Section") /\ T[1] # "message"
                 /\ ~(T[1] = "array" /\ v[2] = <<>>) /\ ~(T[1] = "opt" /\ T[2][1] = "array")
Again == IsOk(verdict) /\ Sayable(Types[kindno], verdict[2]) =>
  LET b == Enc(Types[kindno], verdict[2])  r == Decode(Types[kindno], b)
  IN  IsOk(r) /\ (r[4] => verdict[4]) /\ r[3] = Len(b) + 1 /\ ValEq(verdict[2], r[2])
=============================================================================
