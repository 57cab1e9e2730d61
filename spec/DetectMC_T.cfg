SPECIFICATION Spec
CONSTANTS Day = 6
 Days = 3
 MaxTs = 6
INVARIANTS DayLaw SoundLaw ClosedLaw ContLaw FinalLaw FormsAgree
PROPERTY Ends
CHECK_DEADLOCK FALSE
