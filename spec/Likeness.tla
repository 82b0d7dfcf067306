------------------------------ MODULE Likeness ------------------------------
(***************************************************************************)
(* When two objects are the same.  A first object is taken from the        *)
(* catalogue; the second is another of its type (Meet), or the first with  *)
(* one thing about it changed somewhere inside (Twist).  Likeness is a     *)
(* matter of content: kind by kind, lists in order, maps in any order,     *)
(* floating-point numbers as numbers.                                      *)
(*                                                                         *)
(* Checked: likeness is what the encoding can tell apart (Discerned): what  *)
(* is alike can stand for the other on the wire, what is not is decoded as  *)
(* something else; it goes both ways (Mutual).                             *)
(***************************************************************************)
EXTENDS Catalog, Equality, Json, IOUtils

Number(str) == CHOOSE n \in 0..1023 : ToString(n) = str
Shard == TLCEval(Number(IOEnv.SHARD))
Shards == TLCEval(Number(IOEnv.SHARDS))
Seed == TLCEval(Number(IOEnv.SEED))
Thin == TLCEval(Number(IOEnv.THIN))
Groups == CASE IOEnv.PLAN = "values" -> <<"scalars", "compounds", "restricted">> [] OTHER -> <<"composites", "frames">>
Depth == 2
(* Payloads: raw bytes, messages under construction, and the raw bytes      *)
(* that such a message would be written as.                                *)
TBody == <<"body">>
BodySteps ==
  << [do |-> "set_data", val |-> <<"binary", Rep(1, 40)>>], [do |-> "set_data", val |-> <<"binary", <<>>>>],
     [do |-> "push_data", val |-> <<"binary", <<>>>>], [do |-> "push_data", val |-> <<"binary", <<7>>>>],
     [do |-> "push_msg", p |-> <<"binary", Rep(1, 40)>>], [do |-> "push_msg", p |-> <<"binary", <<>>>>],
     [do |-> "format", vals |-> <<SomeUint>>], [do |-> "format", vals |-> <<>>], [do |-> "set_value", val |-> SomeText], [do |-> "set_value", val |-> <<"null", <<>>>>],
     [do |-> "body_value", vals |-> <<>>], [do |-> "set_app", k |-> SomeText, val |-> SomeUint], [do |-> "set_app", k |-> SomeText, val |-> SomeText],
     [do |-> "set_prop", f |-> "subject", val |-> SomeText], [do |-> "set_prop", f |-> "subject", val |-> <<"null", <<>>>>],
     [do |-> "set_prop", f |-> "message_id", val |-> SomeText], [do |-> "set_header", val |-> <<"Header", Least("Header")>>],
     [do |-> "push_seq", val |-> <<"list", <<>>>>], [do |-> "push_seq", val |-> AList], [do |-> "clear_body"], [do |-> "look"] >>
BodyPlans == Cat([k \in 1..2 |-> LET kind == (<<"in", "out">>)[k] IN
  << <<kind, <<>>>> >> \o [z \in 1..Len(BodySteps) |-> <<kind, <<BodySteps[z]>>>>]
  \o Cat([z \in 1..Len(BodySteps) |-> [y \in 1..Len(BodySteps) |-> <<kind, <<BodySteps[z], BodySteps[y]>>>>]])])
Bodies == Cat([z \in 1..Len(BodyPlans) |-> << <<TBody, <<"built", BodyPlans[z]>>>>, <<TBody, <<"encoded", BodyPlans[z]>>>> >>])
          \o << <<TBody, <<"binary", <<>>>>>>, <<TBody, <<"binary", <<1>>>>>>, <<TBody, <<"binary", <<2>>>>>> >>
Table == TLCEval(IF IOEnv.PLAN = "bodies" THEN Bodies ELSE SelectSeq(Items(Groups, Depth), LAMBDA x : IF x[1][1] = "union" THEN x[1][2] # "Section" ELSE TRUE))
Mine == {n \in 1..Len(Table) : n % Shards = Shard}
TypeText == TLCEval([n \in 1..Len(Table) |-> ToString(Table[n][1])])
Begins == {n \in 1..Len(Table) : IF n = 1 THEN TRUE ELSE TypeText[n] # TypeText[n - 1]}
FirstOf == TLCEval(FoldLeft(LAMBDA acc, n : Append(acc, IF n \in Begins THEN n ELSE acc[n - 1]), <<>>, [n \in 1..Len(Table) |-> n]))

(* ---------------------------------------------------------------------- *)
(* One thing changed                                                       *)
(* ---------------------------------------------------------------------- *)
Letter(c) == c \in 65..90 \/ c \in 97..122
Cases(b) == [b EXCEPT ![Len(b)] = IF Letter(@) THEN IF @ < 97 THEN @ + 32 ELSE @ - 32 ELSE 65]
Flip(b) == [b EXCEPT ![Len(b)] = IF @ % 2 = 0 THEN @ + 1 ELSE @ - 1]
LeafTwist(k, b) == IF k = "null" THEN <<>>
                   ELSE IF b = <<>> THEN << <<k, <<97>>>> >>
                   ELSE IF k \in {"string", "symbol", "binary"} THEN << <<k, Flip(b)>>, <<k, Cases(b)>>, <<k, Append(b, 97)>>, <<k, Append(b, 32)>>, <<k, <<0>> \o b>>, <<k, SubSeq(b, 1, Len(b) - 1)>> >>
                   ELSE << <<k, Flip(b)>>, <<k, [b EXCEPT ![1] = IF k \in {"bool", "char", "timestamp"} THEN @ ELSE (@ + 128) % 256]>> >>
WholeText(v) == v[1] \in {"string", "symbol"} => Utf8(v[2], 1, Len(v[2]))
(* Something of another kind in its place, where anything may stand. *)
Kin == << <<"uint", "int">>, <<"int", "uint">>, <<"ulong", "long">>, <<"long", "ulong">>, <<"ushort", "short">>, <<"short", "ushort">>, <<"ubyte", "byte">>,
          <<"byte", "ubyte">>, <<"uint", "float">>, <<"ulong", "double">>, <<"string", "symbol">>, <<"string", "binary">>, <<"symbol", "string">>, <<"map", "list">> >>
Strangers(x) ==
  (IF x[1] = "null" THEN << <<"list", <<>>>>, <<"bool", <<0>>>> >> ELSE << <<"null", <<>>>> >>)
  \o Cat([k \in 1..Len(Kin) |-> IF Kin[k][1] = x[1] /\ (x[1] = "map" => x[2] = <<>>) THEN << <<Kin[k][2], x[2]>> >> ELSE <<>>])
StrangeIn(xs, z) == LET st == Strangers(xs[z]) IN [y \in 1..Len(st) |-> [xs EXCEPT ![z] = st[y]]]
Absent(name, xs) == LET fs == Composites[name].fields IN
  Cat([z \in 1..Len(xs) |-> IF xs[z] = NullV THEN <<>>
                            ELSE IF z > Len(fs) THEN << [xs EXCEPT ![z] = NullV] >>
                            ELSE IF fs[z][3] = "opt" THEN << [xs EXCEPT ![z] = NullV] >> ELSE <<>>])
RECURSIVE Twists(_)
Inner(xs) == Cat([z \in 1..Min2(Len(xs), 8) |-> LET tw == Twists(xs[z]) IN [y \in 1..Len(tw) |-> [xs EXCEPT ![z] = tw[y]]]])
Twists(v) ==
  CASE v[1] \in {"choice", "cond", "distmode"} -> <<>>
    [] v[1] \in {"custom-cond", "custom-distmode"} -> << <<v[1], Append(v[2], 122)>> >>
    [] v[1] \in LeafKinds -> SelectSeq(LeafTwist(v[1], v[2]), WholeText)
    [] v[1] \in {"list", "array", "multiple"} ->
         (IF v[1] = "list" THEN Tag("list", Cat([z \in 1..Min2(Len(v[2]), 4) |-> StrangeIn(v[2], z)])) ELSE <<>>)
         \o Tag(v[1], Inner(v[2])) \o (IF v[2] = <<>> THEN <<>> ELSE << <<v[1], Front(v[2])>>, <<v[1], Reverse(v[2])>> >>)
    [] v[1] \in {"map", "vecmap"} ->
         LET ps == v[2]
             within == Cat([z \in 1..Min2(Len(ps), 8) |-> LET tw == Inner(ps[z]) IN [y \in 1..Len(tw) |-> [ps EXCEPT ![z] = tw[y]]]])
             strange == Cat([z \in 1..Min2(Len(ps), 4) |-> LET st == StrangeIn(ps[z], 2) IN [y \in 1..Len(st) |-> [ps EXCEPT ![z] = st[y]]]])
         IN  SelectSeq(Tag(v[1], strange \o within \o (IF ps = <<>> THEN <<>> ELSE << Front(ps), Reverse(ps) >>)), LAMBDA m : ~DupKey(m[2]))
    [] v[1] = "desc" -> Tag("desc", Inner(v[2]) \o StrangeIn(v[2], 2))
    [] v[1] \in DOMAIN Composites -> Tag(v[1], Inner(v[2]) \o Absent(v[1], v[2]))
    [] OTHER -> Tag(v[1], Inner(v[2]))

(* ---------------------------------------------------------------------- *)
(* Two objects                                                             *)
(* ---------------------------------------------------------------------- *)
VARIABLES lhsno, rhs, cmpmode
vars == <<lhsno, rhs, cmpmode>>
Init == lhsno \in Mine /\ rhs = <<>> /\ cmpmode = "none"
First == Table[lhsno]
SameType(z) == FirstOf[z] = FirstOf[lhsno]
Plain(v) == v[1] \in (LeafKinds \ {"choice", "cond", "distmode"})
OfBodies == First[1] = TBody
NearBody(z) ==
  LET a == First[2]  b == Table[z][2] IN
  IF a[1] = "binary" THEN b[1] # "encoded"
  ELSE IF a[1] = "encoded" THEN b[1] # "binary" /\ (b[2] = a[2] \/ (b[1] = "built" /\ (lhsno * 7 + z + Seed) % Thin = 0))
  ELSE b[1] = "binary" \/ b[2] = a[2] \/ (b[1] = "built" /\ (Len(a[2][2]) + Len(b[2][2]) <= 2 \/ (lhsno * 7 + z + Seed) % Thin = 0))
Near(z) == IF OfBodies THEN NearBody(z) ELSE
           \/ z = lhsno \/ (Plain(First[2]) /\ Plain(Table[z][2]) /\ Table[z][2][2] = First[2][2])
           \/ (lhsno * 7 + z + Seed) % Thin = 0
Compare(v, manner) ==
  /\ rhs' = v /\ cmpmode' = manner
  /\ PrintT(<<"VECTOR", ToJson([op |-> "same", ty |-> First[1], a |-> First[2], b |-> v, note |-> "likeness"])>>)
  /\ UNCHANGED lhsno
Meet == cmpmode = "none" /\ \E z \in 1..Len(Table) : SameType(z) /\ Near(z) /\ Compare(Table[z][2], "met")
Fits(v) == IF v = <<"array", <<>>>> THEN TRUE ELSE IsOk(Decode(First[1], Enc(First[1], v)))
Twist == cmpmode = "none" /\ ~OfBodies /\ LET tw == TLCEval(Twists(First[2])) IN \E z \in 1..Len(tw) : Fits(tw[z]) /\ Compare(tw[z], "twisted")
Next == Meet \/ Twist
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------------- *)
(* What must hold                                                          *)
(* ---------------------------------------------------------------------- *)
Done == cmpmode # "none"
SameHere == Alike(First[1], First[2], rhs)
Mutual == Done => SameHere = Alike(First[1], rhs, First[2])
Discerned == Done /\ rhs # <<"array", <<>>>> /\ ~OfBodies =>
  LET r == Decode(First[1], Enc(First[1], rhs))
  IN  IsOk(r) /\ (SameHere = Alike(First[1], First[2], Heard(rhs, r[2])))
(* Turning a map's entries around changes nothing; turning a list around    *)
(* does, unless it reads the same both ways.                               *)
Turned == Done /\ First[2][1] \in {"map", "list", "vecmap"} /\ rhs = <<First[2][1], Reverse(First[2][2])>> =>
  SameHere = (First[2][1] = "map" \/ rhs = First[2])
(* A number is like another that is equal to it: zeros whatever their sign, *)
(* a NaN nothing, not even itself.                                         *)
Exponent(b) == IF Len(b) = 4 THEN (b[1] % 128) * 2 + b[2] \div 128 = 255 ELSE (b[1] % 128) * 16 + b[2] \div 16 = 2047
Void(b) == Exponent(b) /\ ~((\A i \in 3..Len(b) : b[i] = 0) /\ b[2] = (IF Len(b) = 4 THEN 128 ELSE 240))
Naught(b) == b[1] \in {0, 128} /\ \A i \in 2..Len(b) : b[i] = 0
Numbers == Done /\ First[1][1] \in {"float", "double"} =>
  LET a == First[2][2]  b == rhs[2] IN SameHere = ((a = b \/ (Naught(a) /\ Naught(b))) /\ ~Void(a))
(* Payloads are alike only if they are of one kind; built in steps of which *)
(* each leaves nothing behind but what it sets, the same steps make the     *)
(* same message.                                                           *)
Bodied == Done /\ OfBodies =>
  /\ SameHere => rhs[1] = First[2][1] /\ (rhs[1] # "binary" => rhs[2][1] = First[2][2][1])
  /\ rhs = First[2] => SameHere
  /\ rhs[1] = "binary" /\ First[2][1] = "binary" => SameHere = (rhs[2] = First[2][2])
=============================================================================
