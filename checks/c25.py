"""C25: the streaming reader's handler storage stays within bounds."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import stack, build
from vlib.modes import configs
from vlib.report import Check, main

def body(ck):
    for std, boost in configs(ck):
        m = build.compile_module("stack", stack.source(), std=std, boost=boost, rules=stack.RULES)
        stack.check(ck, m, *build.record_layout(stack.layout_source(), "persistence::detail::PolymorphicStack<struct vs::HB>", std, boost))
    ck.need("accesses to the handler stack", 500)

if __name__ == "__main__":
    ck = Check("C25", "interval fixpoint over all sequences of the stack's operations: every handler and every cell lies in its own part of the object; path rules: failed pushes leave no trace, a pop destroys exactly the handler on top, "
               "push and pop cancel out, destruction pops until empty.", ["constructors and destructors of handlers do not touch the stack they live in"])
    sys.exit(main(ck, body))
