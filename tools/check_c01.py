"""C01: rendered message = std::fmt meaning of the message with fields substituted."""
import hashlib
import sys
from vlib import *
from render import *

HEADER = """
use thiserror::Error;
use support::{P, PG};
use std::path::{Path, PathBuf};
use std::borrow::Cow;
use std::sync::Arc;
use std::os::unix::ffi::OsStrExt;
fn pa(n: &'static str) -> PathBuf { let mut b = format!("/{n}/é").into_bytes(); b.push(0xff); PathBuf::from(std::ffi::OsStr::from_bytes(&b)) }
"""

PATH_TYPES = [("PathBuf", "pa({n})"), ("&'static Path", "Box::leak(pa({n}).into_boxed_path())"),
              ("Box<Path>", "pa({n}).into_boxed_path()"), ("Arc<Path>", "Arc::from(pa({n}))"),
              ("std::path::PathBuf", "pa({n})"), ("&'static PathBuf", "Box::leak(Box::new(pa({n})))"),
              ("Cow<'static, Path>", "Cow::Owned(pa({n}))")]


def h32(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:8], 16)


def expected(t, paths):
    t = real(t)
    for p in paths:
        t = t.replace(f"[path {real(p)}]", f"/{real(p)}/é\ufffd")
    return t


# Options asked for from outside belong to whoever writes the message; a message has its own.
OPTS = ["{:>40}", "{:*<60}", "{:.1}", "{:^30.2}", "{:#}", "{:+08.0}"]


def make(i, c, variety):
    kind, fields, m = c["kind"], c["fields"], real(c["m"])
    paths = c.get("paths", [])
    named = kind in ("struct", "vstruct")
    sty = variety % 4
    fty = (variety // 4) % 4
    if ":p" in m or "p}" in m or "p }" in m or "p  }" in m or "p@}" in m:
        fty = fty if fty != 1 else 0
    through_macro = (variety // 16) % 5 == 0
    trailing = (variety // 80) % 3 == 0
    gen, args, T = "", "", "P"
    if fty == 1:
        T = "&'static P"
    elif fty == 2:
        gen, T = "<T>", "T"
    elif fty == 3:
        gen, T = "<'a, const N: usize>", "PG<'a, N>"
    mk = lambda n: (f"&P({rust_str(real(n))})" if fty == 1 else f"{'PG' if fty == 3 else 'P'}({rust_str(real(n))})")
    decl, init = [], []
    for k, f in enumerate(fields):
        ty, val = T, mk(f)
        if f in paths:
            ty, e = PATH_TYPES[(variety // 7 + k) % len(PATH_TYPES)]
            val = e.format(n=rust_str(real(f)))
        decl.append(f"{ident(f)}: {ty}" if named else ty)
        init.append(f"{ident(f)}: {val}" if named else val)
    if gen and not any(f not in paths for f in fields):
        gen = ""
    body = ("{ %s }" if named else "(%s)")
    message = lit(m, sty)
    attr = f"#[error({'$l' if through_macro else message}{',' if trailing else ''})]"
    if kind in ("struct", "tuple"):
        d = f"#[derive(Error, Debug)] {attr} pub struct S{gen} {body % ', '.join(decl)}{'' if named else ';'}"
        ctor = "S"
    else:
        d = (f"#[derive(Error, Debug)] pub enum S{gen} {{ #[error(\"{{0}}{{0:?}}\")] Before(P), {attr} V {body % ', '.join(decl)}, "
             f"#[error(\"after {{x}}\")] After {{ x: P }} }}")
        ctor = "S::V"
    ann = ""
    if gen.startswith("<'a"):
        ann = ": S<'static, 3>"
    if through_macro:
        d = f"macro_rules! mk {{ ($l:literal) => {{ {d} }} }} mk!({message});"
    ref = ""
    if named and not paths and all(real(f) == ident(f) for f in fields):
        lets = " ".join(f"let {ident(f)} = P({rust_str(real(f))});" for f in fields)
        ref = f"{{ #[allow(unused_variables)] {{ {lets} _o_.put(\"std\", format!({lit(m)})); }} }}"
    src = f"mod {i} {{ use super::*; {d}\n pub fn run(_o_: &mut support::Out) {{ let v{ann} = {ctor} {body % ', '.join(init)}; _o_.put(\"t\", &v); _o_.put(\"again\", format_args!(\"{{}}\", v)); _o_.put(\"opts\", format_args!(\"{OPTS[variety % len(OPTS)]}\", v)); {ref} }} }}"
    want = expected(c["t"], paths)
    exp = {"t": want, "again": want, "opts": want}
    if ref:
        exp["std"] = want
    return Case(i, src, f"{i}::run(o)", exp, dict(kind=kind, fields=[real(f) for f in fields], message=m, expected=want))


def check(c):
    quick = c.tier == "quick"
    inv = ["TypeOK", "ScannerRefinesGrammar", "ScannerBoundsExact", "PlainText"]
    pools, bad = [], []
    for mode, mi, take in (("spec", 4, 3000 if quick else None), ("shape", 1 if quick else 2, 1200 if quick else 24000),
                           ("items", 2 if quick else 3, 1600 if quick else 30000), ("path", 3, 200 if quick else 2000),
                           ("chars", 5 if quick else 6, 1200 if quick else 30000)):
        r = c.tlc("Fmt", dict(Mode=mode, MaxItems=mi, Tier=c.tier), invariants=inv, tag=mode,
                  timeout=600 if not quick else 200)
        cs = [x for x in r.cases if mode != "chars" or "{" in x["m"] or "}" in x["m"]]
        bad += [x for x in cs if x.get("bad")]
        cs = [x for x in cs if not x.get("bad")]
        cs.sort(key=lambda x: (x["kind"], x["fields"], x["m"]))
        if take and len(cs) > take:
            cs = c.rng.sample(cs, take)
        pools.append((mode, cs))
    r = c.tlc("Fmt", dict(Mode="long", MaxItems=12, Tier=c.tier), invariants=inv, tag="long", simulate=90 if quick else 2500,
              depth=14, timeout=600)
    pools.append(("long", r.cases))
    cases = []
    for mode, cs in pools:
        for x in cs:
            i = f"c{len(cases)}"
            cases.append(make(i, x, h32(f"{c.seed}/{mode}/{x['kind']}/{x['m']}")))
        c.extra.setdefault("replayed", {})[mode] = len(cs)
    for x in cases[:2] + cases[-2:]:
        c.sample(x.info)
    run = RustRun(c, "c01", toolchain=NIGHTLY, header=HEADER)
    res, failing = run.run(cases, on_compile_fail=lambda k, t: c.violation(k.id, "well-formed message does not compile", dict(info=k.info, rustc=t, src=k.src)))
    for k in cases:
        got = res.get(k.id, {})
        if "std" in k.expect and got.get("std") is not None and got["std"] != k.expect["std"]:
            raise ToolError(f"specification disagrees with std::fmt on {k.info}: {got['std']!r}")
    compare(c, cases, res, failing)
    bad.sort(key=lambda x: (x["kind"], x["fields"], x["m"]))
    c.extra["malformed"] = dict(enumerated=len(bad))
    bad = c.rng.sample(bad, min(len(bad), 12000))
    c.extra["malformed"]["judged"] = len(bad)
    bad = [make(f"b{i}", dict(x, t="", paths=[]), 64 + i % 4) for i, x in enumerate(bad)]
    for k in RustRun(c, "c01", toolchain=NIGHTLY, header=HEADER).refused(bad):
        c.violation(k.id, "a message which the formatting macros refuse is accepted", dict(info=k.info, src=k.src))
    c.validated += len(bad)
    c.assumptions += ["literal text is drawn from a finite alphabet; the derive treats other characters alike",
                      "probe fields make trait and formatter options observable; built-in types are covered by std's own formatting"]


if __name__ == "__main__":
    main(check, "C01")
