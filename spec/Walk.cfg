SPECIFICATION Spec
PROPERTY Steps
VIEW View
CONSTRAINT Write
CHECK_DEADLOCK FALSE
