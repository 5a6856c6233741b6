INIT Init
NEXT Step
VIEW View
CHECK_DEADLOCK FALSE
