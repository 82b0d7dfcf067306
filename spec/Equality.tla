------------------------------ MODULE Equality ------------------------------
(***************************************************************************)
(* Equality of values as a user of the library meets it: ==, hashing and   *)
(* lookup in maps.                                                         *)
(***************************************************************************)
EXTENDS MessageBuilder

Number0(k, b) == IF IsZero(b) THEN Zeros(Len(b)) ELSE b
(* A payload given by the steps that build it.                             *)
ContentOf(p) == ApplyEdits(Empty(p[2][1]), p[2][2], <<>>)
RECURSIVE AlikeBy(_, _, _)
(* ieee: floats that are not within a polymorphic value compare as the      *)
(* hardware compares them, so that not-a-number is not even like itself.   *)
AlikeBy(ieee, a, b) ==
  /\ a[1] = b[1]
  /\ CASE a[1] \in {"float", "double"} ->
            IF IsNaN(a[1], a[2]) \/ IsNaN(b[1], b[2]) THEN ~ieee /\ IsNaN(a[1], a[2]) /\ IsNaN(b[1], b[2])
            ELSE Number0(a[1], a[2]) = Number0(b[1], b[2])
       [] a[1] \in LeafKinds \cup {"choice", "cond", "distmode", "custom-cond", "custom-distmode"} -> a[2] = b[2]
       [] a[1] = "map" ->
            /\ Len(a[2]) = Len(b[2])
            /\ \A i \in 1..Len(a[2]) : \E j \in 1..Len(b[2]) :
                 AlikeBy(FALSE, a[2][i][1], b[2][j][1]) /\ AlikeBy(FALSE, a[2][i][2], b[2][j][2])
       [] a[1] = "vecmap" ->
            /\ Len(a[2]) = Len(b[2])
            /\ \A i \in 1..Len(a[2]) :
                 AlikeBy(FALSE, a[2][i][1], b[2][i][1]) /\ AlikeBy(FALSE, a[2][i][2], b[2][i][2])
       \* a message under construction is never like raw bytes, even those it would be written as
       [] a[1] = "built" -> ContentEq(ContentOf(a), ContentOf(b))
       [] a[1] = "encoded" -> a[2] = b[2]      \* the bytes of such a message: asked of one message only
       [] OTHER ->
            /\ Len(a[2]) = Len(b[2])
            /\ \A i \in 1..Len(a[2]) : AlikeBy(ieee /\ a[1] = "array", a[2][i], b[2][i])
Alike(T, a, b) == AlikeBy(T[1] \in {"float", "double"} \/ (T[1] \in {"array", "opt"} /\ T[2][1] \in {"float", "double"}), a, b)

(* A value as it arrives: what is written in one form and read in another.  *)
Heard(said, heard) == IF said[1] \in {"custom-cond", "custom-distmode"} THEN said ELSE heard
=============================================================================
