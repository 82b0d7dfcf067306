----------------------------- MODULE Directory -----------------------------
(***************************************************************************)
(* A map keyed by texts that are stored in different ways, and texts being *)
(* compared.                                                               *)
(*                                                                         *)
(* Plan maps: entries are put, taken away and looked up under two texts in *)
(* any of three representations; after a few such steps everything is      *)
(* looked up in every way.  Plan compare: every text of a pool is compared *)
(* with every other, in every combination of representations.              *)
(*                                                                         *)
(* Checked: a text has at most one entry (Single), which holds what was put *)
(* there last (Remembers); comparing is a total order that agrees with     *)
(* equality and with the order of code points (Total, Points).             *)
(***************************************************************************)
EXTENDS TextKeys, TLC, Json, IOUtils

Number(str) == CHOOSE n \in 0..1023 : ToString(n) = str
Shard == TLCEval(Number(IOEnv.SHARD))
Shards == TLCEval(Number(IOEnv.SHARDS))
Seed == TLCEval(Number(IOEnv.SEED))
Plan == IOEnv.PLAN
Depth == TLCEval(Number(IOEnv.DEPTH))

RepList == <<"static", "dyn", "shared">>
MapKinds == <<"hash", "sym", "variant", "btree">>
LongText(n, last) == [z \in 1..n |-> IF z = n THEN last ELSE 97]
Pool == TLCEval(<< <<>>, <<0>>, <<97>>, <<97, 0>>, <<97, 97>>, <<97, 98>>, <<98>>, <<65>>, <<66>>, <<97, 32>>, <<32, 97>>, <<127>>, <<194, 128>>, <<195, 169>>, <<101, 204, 129>>,
           <<223, 191>>, <<224, 160, 128>>, <<237, 159, 191>>, <<238, 128, 128>>, <<239, 191, 191>>, <<240, 144, 128, 128>>, <<244, 143, 191, 191>>,
           LongText(31, 97), LongText(31, 98), LongText(32, 97), LongText(255, 97), LongText(255, 98), LongText(256, 97), LongText(300, 97), LongText(300, 98), LongText(1100, 97), LongText(1100, 98) >>)
(* The pairs of texts a run's histories are about. *)
Pairs == TLCEval(<< << <<97>>, <<65>> >>, << <<97>>, <<97, 32>> >>, << <<>>, <<97>> >>, << <<97>>, <<98>> >>, << <<97>>, <<97, 0>> >>, << <<195, 169>>, <<101, 204, 129>> >>,
            << LongText(31, 97), LongText(31, 98) >>, << LongText(32, 97), LongText(31, 97) >>,
            << <<239, 191, 191>>, <<240, 144, 128, 128>> >>, << LongText(255, 97), LongText(256, 97) >>, << LongText(300, 97), LongText(300, 98) >> >>)

VARIABLES mapno,     \* kind of map, or number of the first text compared
          pairno,    \* the two texts
          entries,   \* the map
          taken,     \* steps done
          closed
vars == <<mapno, pairno, entries, taken, closed>>
Maps == Plan = "maps"
Init == /\ IF Maps THEN mapno \in 1..4 /\ pairno \in {z \in 1..Len(Pairs) : z % Shards = Shard}
           ELSE mapno \in 1..Len(Pool) /\ pairno \in {z \in 1..Len(Pool) : z % Shards = Shard}
        /\ entries = <<>> /\ taken = <<>> /\ closed = FALSE
Two == Pairs[pairno]
Do(st) == taken' = Append(taken, st) /\ UNCHANGED <<mapno, pairno, closed>>
Put(r, z) == LET v == 100 * (Len(taken) + 1) + 10 * z + r IN
             /\ entries' = Insert(entries, Two[z], v)
             /\ Do([do |-> "ins", rep |-> RepList[r], t |-> Two[z], v |-> v])
Drop(r, z) == /\ entries' = DropKey(entries, Two[z])
              /\ Do([do |-> "del", rep |-> RepList[r], t |-> Two[z]])
(* Histories in which a representation and a text are only named anew are   *)
(* the same: the first step puts the first text.                           *)
Step == /\ Maps /\ ~closed /\ Len(taken) < Depth
        /\ \E r \in 1..3, z \in 1..2 :
             \/ (IF taken = <<>> THEN z = 1 ELSE TRUE) /\ Put(r, z)
             \/ (IF taken = <<>> THEN FALSE ELSE TRUE) /\ Drop(r, z)
Lookups == [n \in 1..8 |-> LET z == ((n - 1) \div 4) + 1  r == (n - 1) % 4 IN
              IF r = 3 THEN [do |-> "gets", t |-> Two[z]] ELSE [do |-> "get", rep |-> RepList[r + 1], t |-> Two[z]]]
Say(kind, steps) == PrintT(<<"VECTOR", ToJson([op |-> "text", map |-> kind, steps |-> steps, note |-> "directory"])>>)
Finish == /\ ~closed /\ (IF Maps THEN Len(taken) = Depth ELSE TRUE)
          /\ closed' = TRUE
          /\ IF Maps THEN Say(MapKinds[mapno], taken \o Lookups \o << [do |-> "keys"] >>)
             ELSE Say("hash", [n \in 1..18 |-> [do |-> "cmp", of |-> IF n <= 9 THEN "str" ELSE "sym",
                                                ra |-> RepList[((n - 1) % 3) + 1], rb |-> RepList[(((n - 1) \div 3) % 3) + 1],
                                                a |-> Pool[mapno], b |-> Pool[pairno]]])
          /\ UNCHANGED <<mapno, pairno, entries, taken>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

Single == Maps => \A y, z \in 1..Len(entries) : y # z => entries[y][1] # entries[z][1]
Touches(t) == SelectSeq(taken, LAMBDA st : st.t = t)
Remembers == Maps => \A z \in 1..2 :
  LET h == Touches(Two[z]) IN
  Lookup(entries, Two[z]) = (IF h = <<>> THEN <<>> ELSE LET e == h[Len(h)] IN IF e.do = "ins" THEN <<e.v>> ELSE <<>>)
(* Code points, from the bytes. *)
PointsOf(b) ==
  FoldLeft(LAMBDA acc, n : IF b[n] \in 128..191 THEN [acc EXCEPT ![Len(acc)] = @ * 64 + (b[n] - 128)]
                           ELSE Append(acc, IF b[n] < 128 THEN b[n] ELSE IF b[n] < 224 THEN b[n] - 192
                                            ELSE IF b[n] < 240 THEN b[n] - 224 ELSE b[n] - 240),
           <<>>, [n \in 1..Len(b) |-> n])
Compared == ~Maps => LET a == Pool[mapno]  b == Pool[pairno] IN
  \A ra, rb \in Reps :
    LET x == <<ra, a>>  y == <<rb, b>> IN
    /\ (Order(x, y) = "eq") = SameText(x, y)
    /\ (Order(x, y) = "lt") = (Order(y, x) = "gt")
    /\ \A n \in 1..Len(Pool) : Order(x, y) = "lt" /\ Before(b, Pool[n]) => Before(a, Pool[n])
Points == ~Maps => Before(Pool[mapno], Pool[pairno]) = Before(PointsOf(Pool[mapno]), PointsOf(Pool[pairno]))
=============================================================================
