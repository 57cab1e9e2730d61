SPECIFICATION Spec
CONSTANTS Day = 4
 Days = 2
 MaxTs = 4
INVARIANTS DayLaw SoundLaw ClosedLaw ContLaw FinalLaw FormsAgree
PROPERTY Ends
CHECK_DEADLOCK FALSE
