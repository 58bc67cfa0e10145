"""C02: floating-point expressions against gcc, bit for bit."""
from c01 import ExprCheck
from cexpr import *
import diffrun

class FloatCheck(ExprCheck):
    prop = "C02"
    types = [DOUBLE, FLOAT, DOUBLE, FLOAT, DOUBLE, FLOAT] + INTS
    technique = "property-based testing: random typed float/double/integer expression programs, bit-exact differential against gcc, with shrinking"
    rule = ("random programs over float, double and all integer types, kept well defined by exact IEEE evaluation (NaN, infinities, signed zeros and subnormals included); "
            "every value is observed as its bit pattern (NaNs canonicalised) and compared with gcc -O0. Non-trivial: at least 6 operators, a floating operand and two operand types.")
    assumptions = ExprCheck.assumptions + ["NaN sign and payload are not compared", "round-to-nearest, the default environment"]
    def generate(self, s):
        c = ExprCheck.generate(self, s)
        c.nontrivial = c.nontrivial and any(l in ("ty:float", "ty:double") for l in c.labels)
        return c

CHECK = FloatCheck()
