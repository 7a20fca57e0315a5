SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Alone RaceFree
CONSTANTS
  Procs = {1, 2, 3}
  Args = {1, 2}
  Calls = 2
