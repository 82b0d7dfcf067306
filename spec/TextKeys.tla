------------------------------ MODULE TextKeys ------------------------------
(***************************************************************************)
(* Texts and maps keyed by text.  A stored text is <<representation,       *)
(* bytes>>; only the bytes count.  A map is a sequence of <<text, value>>  *)
(* with distinct texts.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Reps == {"static", "dyn", "shared"}

SameText(a, b) == a[2] = b[2]
(* Lexicographic order of the bytes, which is that of the code points.     *)
Before(x, y) ==
  \/ \E i \in 1..Len(x) : /\ i <= Len(y) /\ x[i] < y[i]
                          /\ \A j \in 1..(i-1) : x[j] = y[j]
  \/ Len(x) < Len(y) /\ \A j \in 1..Len(x) : x[j] = y[j]
Order(a, b) == IF SameText(a, b) THEN "eq" ELSE IF Before(a[2], b[2]) THEN "lt" ELSE "gt"

Lookup(m, t) == LET hits == SelectSeq(m, LAMBDA e : e[1] = t)
                IN  IF hits = <<>> THEN <<>> ELSE <<hits[1][2]>>
DropKey(m, t) == SelectSeq(m, LAMBDA e : e[1] # t)
Insert(m, t, v) == Append(DropKey(m, t), <<t, v>>)
Keys(m) == {m[i][1] : i \in 1..Len(m)}
Sorted(ks) == \A i \in 1..(Len(ks) - 1) : Before(ks[i], ks[i + 1])
=============================================================================
