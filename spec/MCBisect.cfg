SPECIFICATION Spec
CONSTANTS
    Top = 3
    High = 2
INVARIANTS SignChange TaperLaws Emit
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
