"""C04: random control flow against gcc."""
from c01 import ExprCheck
from engine import Case
from prog import Prog

class FlowCheck(ExprCheck):
    prop = "C04"
    technique = "property-based testing: random structured and unstructured control flow, trace of observations compared with gcc, with shrinking"
    level_note = "Sampled programs; gcc (with clang, -O2 and UBSan as arbiters of failures) is the reference."
    batch = 12
    rule = ("random programs of 1-4 mutually recursive functions with nested if/else, switch (any case order, fall-through, nested labels, Duff's device), for/while/do, break, continue, goto, labels, return, "
            "&&, ||, ?: and comma; operators are total and every back edge is counted, so programs are defined and finite. The trace of observations is compared. Non-trivial: at least 3 kinds of control structure.")
    def generate(self, s):
        p = Prog(s, size=s.range(4, 45))
        text = p.render() + "void @case(void) { obs(1); @main(); }\n"
        kinds = [k for k in p.labels]
        return Case(text, nontrivial=len(kinds) >= 3, labels=kinds)

CHECK = FlowCheck()
