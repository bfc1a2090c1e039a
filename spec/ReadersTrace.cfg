SPECIFICATION Spec
INVARIANTS Reported Conforms
VIEW View
ALIAS Brief
