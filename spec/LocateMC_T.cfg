SPECIFICATION Spec
CONSTANTS Day = 3 Days = 2 MW = 1 NEv = 3
INVARIANTS SelLaw OnceLaw OutLaw NoFilesLaw MidnightLaw WindowLaw
PROPERTY Done
CHECK_DEADLOCK FALSE
