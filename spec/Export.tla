------------------------------- MODULE Export -------------------------------
(* Writes the schema out for the stimulus generator. *)
EXTENDS AmqpSchema, Json, IOUtils
VARIABLE done
Pairs(f) == LET ks == SetToSeq(DOMAIN f) IN [k \in 1..Len(ks) |-> <<ks[k], f[ks[k]]>>]
Schema == [ composites |-> Composites, sections |-> SimpleSections,
            unions |-> [u \in DOMAIN Unions |-> SetToSortSeq(Unions[u], LAMBDA a, b : CodeOf(a) < CodeOf(b))],
            choices |-> [c \in DOMAIN ChoiceTable |-> <<ChoiceTable[c][1], Pairs(ChoiceTable[c][2])>>],
            conditions |-> Pairs(Conditions), distmodes |-> Pairs(DistModes),
            fixed |-> Pairs(FixedCodes), var |-> Pairs(VarCodes), compound |-> Pairs(CompoundCodes) ]
Init == done = JsonSerialize(IOEnv.OUT, <<Schema>>)
Next == UNCHANGED done
=============================================================================
