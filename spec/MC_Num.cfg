INIT Init
NEXT Next
INVARIANT IntegerAgreement FieldLaws Specials
CHECK_DEADLOCK FALSE
