#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seed N] [--cases N] [--time S] [--all] [-v] [--replay FILE] [--show]"""
import importlib, json, os, sys, tempfile, shutil
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import engine

def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    o = dict(tier=os.environ.get("VERIF_TIER") or "quick", seed=os.environ.get("VERIF_SEED") or "1")
    while a:
        k = a.pop(0)
        if k in ("-v", "--all", "--show"):
            o[k.strip("-")] = True
        else:
            o[k.strip("-")] = a.pop(0)
    try:
        seed = int(o["seed"])
    except ValueError:
        seed = engine.seed_for(o["seed"])
    check = importlib.import_module(prop.lower()).CHECK
    if "show" in o:
        check.tier = o["tier"]; check.seed = seed
        c = engine.gen_case(check, seed=engine.seed_for(seed, check.prop, 0, int(o.get("case", 0))))
        print(c.text, c.labels)
        return 0
    if "replay" in o:
        r = json.load(open(o["replay"]))
        work = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            check.tier = o["tier"]; check.seed = seed
            check.setup(work)
            if r["choices"] is None:
                bad = [x for x in check.pinned(work) if x[1] == engine.FAIL]
                print(bad)
                return 1 if bad else 0
            c = engine.gen_case(check, prefix=r["choices"])
            d = os.path.join(work, "r"); os.mkdir(d)
            st, msg = check.evaluate([c], d)[0]
            print(c.text); print(st, msg)
            if st == engine.FAIL:
                print("VIOLATION property=%s replay=%s" % (check.prop, o["replay"]))
                return 1
            return 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return engine.run(check, o["tier"], seed, cases=int(o["cases"]) if "cases" in o else None,
                      tlimit=float(o["time"]) if "time" in o else None, stop_first="all" not in o, verbose="v" in o)

if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.exit(main())
