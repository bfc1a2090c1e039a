SPECIFICATION Spec
CONSTANT Std = TRUE
INVARIANTS Reported Conforms
VIEW RView
ALIAS Brief
