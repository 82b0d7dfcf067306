INIT Init
NEXT Next
INVARIANTS AllBytes Faithful SelfDelimiting PrefixFree Bounded Normal Demanded Nullable ByKind DeclaredEnd DeclaredEnd4 Within Headed Worded Textual Charred
CHECK_DEADLOCK FALSE
