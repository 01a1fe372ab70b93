"""python3-vt -m vc.replay FILE: replay a recorded violation on /repo's current code (exit 1: it still fails)"""
import json
import sys

from . import contracts, specs, search
from .cimpl import CImpl
from .extract import extract


def main():
    d = json.load(open(sys.argv[1]))
    if d.get("no_failing_input_found"):
        print("no failing input was found; the undischarged obligations were:")
        for o in d["failed_obligations"]:
            print("  %s: %s" % (o["where"], ", ".join(c[0] for c in o["clauses"])))
        print("run the check again to see whether they are discharged now")
        return 2
    prog = extract()
    contracts.adapt(prog)
    impl = CImpl(prog)
    fn, args = d["function"], [int(x, 16) for x in d["arguments"]]
    if d.get("sanitized"):
        from . import ubhunt
        h = ubhunt.Hunter(prog)
        v = h.one(fn, args)
        h.close()
        print("%s(%s): %s" % (fn, ", ".join(d["arguments"]), ubhunt.WHAT[v[0]] if v else "returns normally"))
        return 1 if v else 0
    if "result_in_a_fresh_process" in d:
        from . import history
        hit = history.hunt(prog, [prog.get(fn)], 1)
        print("a call of %s depends on history or schedule: %s" % (fn, hit))
        return 1 if hit else 0
    print("%s(%s) = 0x%x" % (fn, ", ".join("%s %s" % x for x in zip(d["argument_types"], d["arguments"])),
                             impl.call(fn, args)))
    from .check import load_known
    for g in specs.PROPS[d["property"]][0](prog):
        if g.fn == fn and g.label == d["case"]:
            v = search.judge(prog, impl, g, args, load_known(d["property"]))
            if v:
                print("violates: %s" % v[0])
                return 1
    print("the property holds for this input")
    return 0


if __name__ == "__main__":
    sys.exit(main())
