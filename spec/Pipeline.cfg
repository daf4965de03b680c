SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OnePage NumbersUnique LinksLead Balanced AuxStripped NavigationComplete FailuresKept PrimaryFirst TreeSound IndexComplete
