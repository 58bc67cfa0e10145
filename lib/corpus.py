"""Random translation units drawn from the generators of the other properties."""
import diffrun
from cexpr import TYPEID_MACRO
from engine import Source

NAMES = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10"]
_mods = {}
def check(name):
    if name not in _mods:
        _mods[name] = __import__(name).CHECK
    return _mods[name]

HEAD = diffrun.DECLS + TYPEID_MACRO + "#define VALIST __builtin_va_list\n#define VASTART __builtin_va_start\n"

def body(s, names=NAMES):
    """(kind, text with @ names, whether the text is complete and executable through the harness)"""
    n = s.pick(names)
    c = check(n).generate(s)
    if c is None:
        return None
    if n in ("c09", "c10", "c11"):
        d = c.data
        return n, d.common + d.cc, False
    return n, c.text, True

def unit(s, prefix="u_", names=NAMES, head=HEAD):
    b = body(s, names)
    if b is None:
        return None
    return b[0], head + b[1].replace("@", prefix)
