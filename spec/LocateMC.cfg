SPECIFICATION Spec
CONSTANTS Day = 3 Days = 2 MW = 1 NEv = 2
INVARIANTS SelLaw OnceLaw OutLaw NoFilesLaw MidnightLaw WindowLaw
CHECK_DEADLOCK FALSE
