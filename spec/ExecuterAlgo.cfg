SPECIFICATION Spec
CONSTANTS Max = 2
 Ops = 4
 Nested = 1
 Faults = 1
 Probe = TRUE
 Export = FALSE
VIEW view
INVARIANTS AlwaysAllowed Bounded Distinct Consistent DeviceAgrees NeverStuck
CHECK_DEADLOCK FALSE
