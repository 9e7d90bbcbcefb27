"""C10: a declaration is accepted exactly when it obeys the rules of module Decl."""
from vlib import *
import declr
import exprs

INV = ["AtMostOneEach", "FromConstructible", "FromIsSource", "TransparentOneField", "TextTotal"]
QUICK = [("item", 2, 1, 1, 1), ("fields", 1, 2, 2, 1), ("fields3", 1, 3, 1, 1), ("types", 1, 1, 2, 1), ("enum", 1, 1, 1, 2)]
THOROUGH = [("item", 3, 1, 1, 1), ("fields", 2, 2, 2, 1), ("fields3", 1, 3, 2, 1), ("types", 1, 2, 2, 1), ("enum", 1, 2, 1, 2), ("enum", 1, 1, 1, 3)]

PRELUDE = """
#![allow(unused)]
"""


def judge(c, key, want, kind, msgs, src, d):
    """want: the set of violated rules."""
    if kind == "panic" or kind == "crash":
        c.violation(key, f"the derive panics: {msgs}", src)
    elif kind == "input":
        raise ToolError(f"not a declaration: {src} {msgs}")
    elif not want and kind != "ok":
        c.violation(key, f"a declaration that obeys the rules is rejected: {msgs}", src)
    elif want and kind == "ok":
        c.violation(key, f"a declaration that breaks {sorted(want)} is accepted", src)
    elif want:
        named = declr.rule_of(msgs[0])
        if named is not None and named not in want and not ("malformed" in want and named.startswith("dup-")):
            c.violation(key, f"the diagnostic names {named}, the declaration breaks {sorted(want)}", src)
        elif named is None and "malformed" not in want:
            # a wording not known here: accept it, the rule is still enforced
            c.extra["unknown_wording"] = c.extra.get("unknown_wording", 0) + 1


def check(c):
    ip = InProc(c)
    sampleable = []
    for mode, a, fl, fa, v in (QUICK if c.tier == "quick" else THOROUGH):
        r = c.tlc("DeclGen", dict(Mode=mode, MaxAt=a, MaxFields=fl, MaxFieldAt=fa, MaxVariants=v), invariants=INV, tag=f"{mode}{v}",
                  timeout=900)
        items, want = [], {}
        for k, x in enumerate(r.cases):
            key = declr.h(json.dumps(x["d"], sort_keys=True), c.seed)
            src = declr.decl(x["d"], key)
            items.append((str(k), src))
            want[str(k)] = (set(x["rules"]), x["d"], src)
        res = ip.run(items)
        for i, src in items:
            if i not in res:
                c.violation(src, "no answer from the derive", src)
                continue
            kind, msgs, _ = res[i]
            if len(c.violations) < 300:
                judge(c, src, want[i][0], kind, msgs, src, want[i][1])
        c.validated += len(res)
        rej = sum(1 for i in want if want[i][0])
        c.extra.setdefault("modes", {})[mode + str(v)] = dict(declarations=len(items), rejected=rej)
        pick = c.rng.sample(items, min(len(items), 60 if c.tier == "quick" else 400))
        sampleable += [(src, want[i][0], want[i][1]) for i, src in pick]
        for i, src in c.rng.sample(items, 1):
            c.sample(dict(declaration=src, breaks=sorted(want[i][0]), derive=res.get(i, [None])[0]))
    arguments(c, ip)
    c.extra["exhaustive"] = True
    rustc_agrees(c, sampleable)
    c.assumptions += ["rules are judged by the diagnostic the derive emits; wording unknown to the check counts as naming the rule"]


def arguments(c, ip):
    """Messages with argument expressions of module Expr: rejected exactly when the message would be ambiguous."""
    table, xs = exprs.families(c, [(1, True, 2)], [(1, True, 2), (2, True, 0), (2, False, 0)])
    items, want = [], {}
    for x in xs:
        v = declr.h(c.seed, "c10", json.dumps(x["tk"]))
        for k, w in enumerate(x["out"]):
            src = exprs.declaration(x, table[x["kind"]][k], v + k)[0]
            items.append((str(len(items)), src))
            want[src] = {"ambiguous"} if w == "REJECT" else set()
    res = ip.run(items)
    for i, src in items:
        if i not in res:
            c.violation(src, "no answer from the derive", src)
        elif len(c.violations) < 300:
            judge(c, src, want[src], res[i][0], res[i][1], src, None)
    c.validated += len(res)
    c.extra["modes"]["arguments"] = dict(declarations=len(items), rejected=sum(1 for w in want.values() if w))


def rustc_agrees(c, picks):
    """The same outcomes through rustc: a rejected declaration fails to compile with a diagnostic of the derive inside it."""
    hdr = """
use thiserror::Error; use std::backtrace::Backtrace;
#[derive(Debug)] pub struct E; impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } } impl std::error::Error for E {}
#[derive(Debug)] pub struct W<'a>(pub &'a u8); impl<'a> std::fmt::Display for W<'a> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } } impl<'a> std::error::Error for W<'a> {}
pub mod m { pub use super::W; }
"""
    cases, want = [], {}
    for k, (src, rules, d) in enumerate(picks):
        if "__NONE__" in src or not rules or "Backtrace<" in src or "union" in src:
            continue
        cases.append(Case(f"r{k}", f"mod r{k} {{ use super::*; #[derive(Error, Debug)] {src} }}", "", {}, src))
        want[f"r{k}"] = rules
    run = RustRun(c, "rustc", toolchain=STABLE, header=hdr, shards=8)
    run.write(cases)
    rc, diags, err = run.build()
    bad = {}
    for path, m, tgt in diags:
        if m.get("level") == "error":
            for k in run.locate(path, m):
                bad.setdefault(k.id, []).append(m["message"])
    for k in cases:
        if k.id not in bad:
            c.violation(k.info, f"rustc accepts a declaration that breaks {sorted(want[k.id])}", k.info)
    c.validated += len(cases)
    c.extra["rustc_rejections_confirmed"] = len([k for k in cases if k.id in bad])


if __name__ == "__main__":
    main(check, "C10")
