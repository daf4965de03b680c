SPECIFICATION ASpec
VIEW AView
CHECK_DEADLOCK FALSE
INVARIANTS OnePage NumbersUnique LinksLead Balanced AuxStripped NavigationComplete FailuresKept PrimaryFirst TreeSound IndexComplete
