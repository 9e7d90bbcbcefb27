"""C02: what a placeholder name or number means, whatever the extra arguments look like."""
from vlib import *
from render import *
import declr
import exprs

HEADER = """
use thiserror::Error;
use support::P;
pub const c: P = P("c"); pub static k: P = P("k");
"""


def res_case(i, x, v):
    m = x["m"]
    T = "P"
    named = x["kind"] in ("struct", "vstruct")
    unit = x["kind"] in ("unit", "vunit")
    enum = x["kind"] in ("vstruct", "vtuple", "vunit")
    fs, init = [], []
    for f in x["fields"]:
        fs.append(f"{ident(f)}: {T}" if named else T)
        init.append((f"{ident(f)}: " if named else "") + f'P("{f}")')
    body = "" if unit else ("{ %s }" if named else "(%s)") % ", ".join(fs)
    val = "" if unit else ("{ %s }" if named else "(%s)") % ", ".join(init)
    args = [('7usize' if a == "7" else f'P("{a}")') for a in x["pos"]]
    args += [f"{ident(a)} = " + ("7usize" if a == "w" else f'P("arg_{a}")') for a in x["named"]]
    attr = f"#[error({lit(m, v % 3)}{''.join(', ' + a for a in args)}{',' if v % 5 == 0 else ''})]"
    if enum:
        d = f"{attr} V {body}"
        order = [d, '#[error("{x}")] W { x: u8 }'] if v % 2 else ['#[error("{0}", c = 3, k = 4)] W(u8)'.replace(", c = 3, k = 4", ""), d]
        d = f"pub enum S {{ {', '.join(order)} }}"
        ctor = f"S::V{val}"
    else:
        d = f"{attr} pub struct S{body}{'' if named else ';'}"
        ctor = f"S{val}"
    src = f"mod {i} {{ use super::*; #[derive(Error, Debug)] {d}\n pub fn run(o: &mut support::Out) {{ o.put(\"t\", {ctor}); }} }}"
    return Case(i, src, f"{i}::run(o)", {"t": x["t"]}, dict(declaration=d, expected=x["t"])), d


def accept(c, ips, items, want):
    """Acceptance or the ambiguity diagnostic, with both parsers."""
    for label, ip in ips:
        res = ip.run(items)
        for i, src in items:
            if i not in res:
                c.violation(src, f"no answer from the derive ({label})", src)
                continue
            kind, msgs, _ = res[i]
            if len(c.violations) > 200:
                break
            if want[i] == "REJECT":
                if kind != "err" or declr.rule_of(msgs[0]) not in ("ambiguous", None):
                    c.violation(src, f"numbered placeholders with unnamed arguments on a tuple container: {kind} {msgs} ({label})", src)
            elif kind != "ok":
                c.violation(src, f"a valid message is rejected: {kind} {msgs} ({label})", src)
        c.validated += len(res)


def check(c):
    q = c.tier == "quick"
    table, xs = exprs.families(c, [(1, True, 2), (2, False, 0)], [(1, True, 2), (2, True, 0), (2, False, 2), (3, False, 0)])
    inv = ["ScannerRefinesGrammar", "ExplicitWins", "FieldElse"]
    rs = c.tlc("Res", dict(MaxPh=1, Tier=c.tier), invariants=inv, tag="one").cases
    seen = {json.dumps(x, sort_keys=True) for x in rs}
    for x in c.tlc("Res", dict(MaxPh=4, Tier=c.tier), invariants=inv, tag="long", simulate=700 if q else 9000, depth=7, timeout=900).cases:
        if json.dumps(x, sort_keys=True) not in seen:
            rs.append(x)
    rs.sort(key=lambda x: json.dumps(x, sort_keys=True))
    # 1. acceptance of every expression in every scenario, with the plain and the full-syntax parser
    ips = [("default parser", InProc(c)), ("full-syntax parser", InProc(c, synfull=True))]
    items, want = [], {}
    for x in xs:
        v = declr.h(c.seed, json.dumps(x["tk"]))
        for k, w in enumerate(x["out"]):
            if x["n"] > 1 and x["ty"] == "u" and q and (v + k) % 3:
                continue
            if w == "REJECT" or x["kind"] == "tuple" or (v + k) % 4 == 0:
                i = f"e{len(items)}"
                items.append((i, exprs.declaration(x, table[x["kind"]][k], v + k)[0]))
                want[i] = w
    cases = []
    for x in rs:
        i = f"r{len(items)}"
        k, d = res_case(i, x, declr.h(c.seed, json.dumps(x)))
        items.append((i, d))
        want[i] = x["t"]
        if x["t"] != "REJECT" and "<7:" not in x["t"]:  # the usize used as a count is not a probe
            cases.append(k)
    c.extra["acceptance_decisions"] = 2 * len(items)
    accept(c, ips, items, want)
    # 2. meaning at run time: resolution table, and every scenario around sampled expressions
    if q and len(cases) > 2000:
        cases = c.rng.sample(cases, 2000)
    run = RustRun(c, "res", toolchain=STABLE, header=HEADER)
    res, failing = run.run(cases, on_compile_fail=lambda k, t: c.violation(k.info["declaration"], "a valid message does not compile", dict(rustc=t)))
    compare(c, cases, res, failing, keyf=lambda k, o: k.info["declaration"])
    ys = [x for x in xs if x["ty"] != "u"]
    ys = c.rng.sample(ys, min(len(ys), 500 if q else 6000))
    ex = []
    for x in ys:
        for k, w in enumerate(x["out"]):
            if w not in ("REJECT", "ACCEPT"):
                ex.append(exprs.case(f"e{len(ex)}", x, table[x["kind"]][k], w, declr.h(c.seed, k, json.dumps(x["tk"]))))
    if q:
        ex = c.rng.sample(ex, min(len(ex), 1500))
    run = RustRun(c, "args", toolchain=STABLE, header=exprs.HEADER, crate_attrs=exprs.CRATE, synfull=True)
    res, failing = run.run(ex, on_compile_fail=lambda k, t: c.violation(k.info["declaration"], "a valid message does not compile", dict(rustc=t)))
    compare(c, ex, res, failing, keyf=lambda k, o: k.info["declaration"])
    for k in c.rng.sample(cases, 2) + c.rng.sample(ex, 2):
        c.sample(k.info)


if __name__ == "__main__":
    main(check, "C02")
