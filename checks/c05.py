"""C05: a program and equivalent rewritings of it behave alike."""
from c01 import ExprCheck
from engine import Case
from prog import Prog

class OptCheck(ExprCheck):
    prop = "C05"
    technique = "metamorphic property-based testing: random programs and meaning-preserving rewritings of them must give the same trace, which must also be gcc's; with shrinking"
    level_note = "Sampled programs and rewritings; gcc is used to validate that the rewriting preserves the meaning and as the reference of the trace."
    batch = 8
    rule = ("a random program (statement grammar of C04, with float variables, goto and switch) is rendered twice: once plainly and once with every local stored in a randomly chosen way (register, volatile, address taken, "
            "struct/union member, array element, inside a large object, initialised), statements wrapped in blocks, always-true conditions or one-trip loops, expressions wrapped in value-preserving forms, and dead computations "
            "inserted. Both run in the same executable; their traces must be equal and equal to the reference's. Non-trivial: at least 3 kinds of control structure and at least 40 characters of difference.")
    def generate(self, s):
        p = Prog(s, size=s.range(3, 35), floats=s.chance(1, 3))
        a = p.render(pre="@a_")
        b = p.render(s, pre="@b_")
        text = a + b + "void @case(void) { obs(1); runseg(@a_main); runseg(@b_main); segcmp(); }\n"
        kinds = list(p.labels)
        return Case(text, nontrivial=len(kinds) >= 3 and abs(len(a) - len(b)) >= 40, labels=kinds)

CHECK = OptCheck()
