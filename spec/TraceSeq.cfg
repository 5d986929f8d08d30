SPECIFICATION Spec
VIEW View
ALIAS Alias
CHECK_DEADLOCK TRUE
