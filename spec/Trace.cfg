SPECIFICATION Spec
CONSTANTS
  Docs <- MDocs
  Str <- MStr
  Fuel <- MFuel
VIEW View
CHECK_DEADLOCK FALSE
