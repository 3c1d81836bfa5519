"""setup: nothing to build; verifies that the tools are present and that the theory agrees with CPython."""
import shutil
import sys
import z3
assert shutil.which('cvc5'), 'cvc5 missing'
from pyvc import selfcheck
sys.exit(selfcheck.main())
