SPECIFICATION Spec
CONSTANT Std = FALSE
INVARIANTS Reported Conforms
VIEW RView
ALIAS Brief
