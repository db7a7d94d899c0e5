"""contracts used in place of bodies (each is itself proved by a contract in the same check)"""
from distspec import *
import re
def _lf(c):
    from exec import INLINE
    k=c.args[0]
    if not isinstance(k,Poly): return INLINE
    return fin(lgamma(k+1))
LOGFACT=[(re.compile(r'factorial::log_factorial'),_lf)]
