SPECIFICATION Spec
INVARIANT Right Complete OneUser Mutex Stuck
PROPERTY NoRace Terminates
VIEW View
CONSTRAINT Write
CHECK_DEADLOCK FALSE
