"""Registry of checks."""
from . import c_step, c_pool, c_reg
CHECKS = {}
for _m in (c_step, c_pool, c_reg):
    CHECKS.update(_m.CHECKS)
