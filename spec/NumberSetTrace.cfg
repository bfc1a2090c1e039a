SPECIFICATION Spec
CONSTANT Std = FALSE
INVARIANTS Reported Conforms
VIEW View
ALIAS Brief
