import props_cpp
CHECKS = {}
CHECKS.update(props_cpp.CHECKS)
import props_lit
CHECKS.update(props_lit.CHECKS)
import props_sem
CHECKS.update(props_sem.CHECKS)
import props_gen
CHECKS.update(props_gen.CHECKS)
