"""C03: leading-dot field references wherever an argument expression may start."""
from vlib import *
import declr
import exprs


def check(c):
    q = c.tier == "quick"
    table, xs = exprs.families(c, [(1, True, 2), (2, True, 0)], [(1, True, 2), (2, True, 1), (2, True, 2)])
    xs = [x for x in xs if x["ty"] != "u" and exprs.uses_dot(x["tk"])]
    xs.sort(key=lambda x: json.dumps(x, sort_keys=True))
    take = 2600 if q else 30000
    one = [x for x in xs if x["n"] <= 1]
    two = [x for x in xs if x["n"] > 1]
    pick = c.rng.sample(one, min(len(one), take * 6 // 10)) + c.rng.sample(two, min(len(two), take * 4 // 10))
    c.extra["expressions"] = dict(enumerated=len(xs), replayed=len(pick))
    cases = []
    for x in pick:
        i = f"c{len(cases)}"
        v = declr.h(c.seed, json.dumps(x["tk"]))
        ok = [k for k, w in enumerate(x["out"]) if w not in ("REJECT", "ACCEPT")]
        k = ok[v % len(ok)]
        cases.append(exprs.case(i, x, table[x["kind"]][k], x["out"][k], v))
    run = RustRun(c, "c03", toolchain=STABLE, header=exprs.HEADER, crate_attrs=exprs.CRATE)
    res, failing = run.run(cases, on_compile_fail=lambda k, t: c.violation(k.info["declaration"], "an argument expression does not compile", dict(rustc=t)))
    compare(c, cases, res, failing, keyf=lambda k, o: k.info["declaration"])
    for k in c.rng.sample(cases, 4):
        c.sample(k.info)
    c.assumptions += ["expressions evaluate integers, booleans and ranges; operators and control flow not modelled are checked for their boundary in C02"]


if __name__ == "__main__":
    main(check, "C03")
