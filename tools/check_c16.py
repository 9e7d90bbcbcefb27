"""C16: rendering into destinations that refuse, and fields whose formatting fails."""
from vlib import *
import declr

HEADER = """
use thiserror::Error;
use std::{fmt::{self, Write as _}, error::Error as StdError, path::PathBuf};
/// Formats as "pq", or fails after "p".
#[derive(Debug, Clone, Copy)] pub struct Fr(pub bool);
impl Fr { fn go(&self, f: &mut fmt::Formatter, t: &str) -> fmt::Result { f.write_str(&t[..1])?; if self.0 { return Err(fmt::Error); } f.write_str(&t[1..]) } }
impl fmt::Display for Fr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.go(f, "pq") } }
impl fmt::Pointer for Fr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.go(f, "@f") } }
#[derive(Error, Debug)] #[error("in:{0}")] pub struct Nest(pub Fr);
/// Takes `left` characters, then refuses; `relent`: takes everything again after the first refusal; `whole`: never takes part of a write.
pub struct W { pub left: usize, pub relent: bool, pub whole: bool, pub refused: bool, pub got: String }
impl fmt::Write for W { fn write_str(&mut self, s: &str) -> fmt::Result {
    if self.refused && self.relent { self.got.push_str(s); return Ok(()); }
    if self.refused { return Err(fmt::Error); }
    let n = s.chars().count();
    if n <= self.left { self.left -= n; self.got.push_str(s); return Ok(()); }
    if !self.whole { self.got.extend(s.chars().take(self.left)); self.left = 0; }
    self.refused = true; Err(fmt::Error)
} }
pub struct Shown<'a>(&'a (dyn StdError + 'static)); impl<'a> fmt::Debug for Shown<'a> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self.0, f) } }
pub fn all(o: &mut support::Out, max: usize, v: &(dyn StdError + 'static), full: &str) {
    for b in 0..=max {
        // options of the enclosing placeholder change nothing
        let mut first: Option<Vec<String>> = None;
        for opts in 0..5 {
        let mut seen = Vec::new();
        for (relent, whole) in [(false, false), (true, false), (false, true), (true, true)] {
            let mut w = W { left: b, relent, whole, refused: false, got: String::new() };
            let r = match opts { 0 => write!(w, "{}", v), 1 => write!(w, "{:#}", v), 2 => write!(w, "{:>9.1}", v), 3 => write!(w, "{:+08}", v), _ => write!(w, "{:*<#4.0?}", Shown(v)) };
            let res = if r.is_ok() { "ok" } else { "err" };
            // a destination that takes whole writes only gets a prefix of its own choosing
            if whole { seen.push(if full.starts_with(&w.got) && w.got.chars().count() <= b { format!("{res} prefix") } else { format!("{res} {}", w.got) }); }
            else { seen.push(format!("{res} {}", w.got)); }
        }
        if let Some(ref first) = first { if *first != seen { o.put(&b.to_string(), format!("with options {}: {}", opts, seen.join(" | "))); break; } continue; }
        first = Some(seen.clone());
        o.put(&b.to_string(), if seen[0] == seen[1] && seen[2] == seen[3] && seen[2].starts_with(&seen[0][..2]) && seen[2].ends_with("prefix") { seen.swap_remove(0) } else { seen.join(" | ") });
        }
    }
    // the value is as it was
    let mut w = W { left: 999, relent: false, whole: false, refused: false, got: String::new() };
    let r = write!(w, "{}", v); o.put("again", format!("{} {}", if r.is_ok() { "ok" } else { "err" }, w.got));
}
"""
PH = {"lit": "ab", "esc": "{{}}", "str": "{s}", "pad": "{s:>4}", "dbg": "{s:?}", "own": "{f}", "path": "{p}", "nest": "{nest}", "arg": "{}.", "num": "{n:03}", "ptr": "{f:p}"}
ORDER = ["s", "n", "f", "p", "nest"]
FIELDS = "s: String, n: u32, f: Fr, p: PathBuf, nest: Nest"
TUPLE = "String, u32, Fr, PathBuf, Nest"


def case(i, form, pieces, bad, rows, v):
    def message(tuple_):
        out = ""
        for p in pieces:
            if p == "arg":
                out += "{z}." if tuple_ else "{}."
            elif p in ("lit", "esc") or not tuple_:
                out += PH[p]
            else:
                out += re.sub(r"^\{(nest|s|n|f|p)", lambda z: "{" + str(ORDER.index(z[1])), PH[p])
        # numbered placeholders do not mix with unnamed arguments on a tuple
        args = (", z = .2" if tuple_ else ", .f" * pieces.count("arg")) if "arg" in pieces else ""
        return f'#[error("{out}"{args})]'
    val = f's: "xy".to_string(), n: 7, f: Fr({str(bad == "f").lower()}), p: PathBuf::from("/p"), nest: Nest(Fr({str(bad == "nest").lower()}))'
    tval = re.sub(r"(^|, )(s|n|f|p|nest): ", r"\1", val)
    pre = ""
    tup = form == "tuple" or (form in ("variant", "default", "transparent", "boxed") and v % 2)
    attr = message(tup)
    body, ctor, semi = (f"({TUPLE})", f"({tval})", ";") if tup else (f"{{ {FIELDS} }}", f"{{ {val} }}", "")
    if form in ("struct", "tuple"):
        text, value = f"{attr} pub struct S {body}{semi}", f"S {ctor}"
    elif form == "variant":
        text, value = f'pub enum S {{ #[error("other")] O, {attr} V {body} }}', f"S::V {ctor}"
    elif form == "default":
        text, value = f'{attr} pub enum S {{ V {body}, #[error("other")] O }}', f"S::V {ctor}"
    elif form == "fmt":
        fm = "".join("{f}." if p == "arg" else PH[p] for p in pieces)
        uses = "".join(f", {z} = {z}{'.display()' if z == 'p' else ''}" for z in ORDER if re.search(r"(?<!\{)\{%s\b" % z, fm))
        fm = fm.replace("{f:p}", "{f_p:p}")
        if "{f_p:p}" in fm:
            uses += ", f_p = Ptr(f)"
            if "{f}" not in fm:
                uses = uses.replace(", f = f", "", 1)
        pre = ("pub struct Ptr<'a>(&'a Fr); impl<'a> fmt::Pointer for Ptr<'a> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Pointer::fmt(self.0, f) } } "
               f"fn show(s: &String, n: &u32, f: &Fr, p: &PathBuf, nest: &Nest, out: &mut fmt::Formatter) -> fmt::Result {{ write!(out, \"{fm}\"{uses}) }} ")
        if v % 2:
            text, value = f'pub enum S {{ #[error(fmt = show)] V {body}, #[error("o")] O }}', f"S::V {ctor}"
        else:
            text, value = f'#[error(fmt = show)] pub enum S {{ #[error("o")] O, V {body} }}', f"S::V {ctor}"
    else:
        pre = f"#[derive(Error, Debug)] {attr} pub struct I {body}{semi} "
        inner, iv = ("I", f"I {ctor}") if form != "boxed" else ("Box<dyn StdError>", f"Box::new(I {ctor})")
        if form == "twice":
            pre += "#[derive(Error, Debug)] pub enum J { #[error(transparent)] V(#[from] I) } "
            inner, iv = "J", f"J::from(I {ctor})"
        if v % 2:
            text, value = f"#[error(transparent)] pub struct S {{ e: {inner} }}", f"S {{ e: {iv} }}"
        else:
            text, value = f'pub enum S {{ #[error("o")] O, #[error(transparent)] V({inner}) }}', f"S::V({iv})"
    expect = {str(r["budget"]): f"{r['res']} {r['out']}" for r in rows}
    full = rows[0]["full"]
    top = max(r["budget"] for r in rows)
    expect["again"] = expect[str(top)]
    src = (f"mod {i} {{ use super::*; {pre}#[derive(Error, Debug)] {text}\n pub fn run(o: &mut support::Out) {{ let v = {value}; "
           f"all(o, {top}, &v, {rust_str(full)}); }} }}")
    return Case(i, src, f"{i}::run(o)", expect, dict(declaration=text, failing_field=bad, full=full))


def check(c):
    q = c.tier == "quick"
    inv, pr = ["Prefix", "OkMeansAll", "ErrMeansRefused"], ["NothingAfter"]
    xs = c.tlc("Emit", dict(MaxPieces=1 if q else 2, Tier=c.tier), invariants=inv, properties=pr, tag="short", timeout=900).cases
    groups = {}

    def add(x):
        groups.setdefault((x["form"], tuple(x["pieces"]), x["bad"]), {})[x["budget"]] = x
    for x in xs:
        add(x)
    n1 = len(groups)
    # longer messages: TLC picks the shapes at random, then explores every budget and failing field of each
    two = c.tlc("Emit", dict(MaxPieces=2 if q else 3, Tier=c.tier), invariants=inv, properties=pr, tag="more", timeout=900).cases
    for x in two:
        add(x)
    keys = sorted(groups)
    short = [k for k in keys if len(k[1]) <= 1]
    rest = [k for k in keys if len(k[1]) > 1]
    pick = short + c.rng.sample(rest, min(len(rest), 1300 if q else 9000))
    c.extra["renderings"] = dict(enumerated=len(keys), replayed=len(pick))
    cases = []
    for k in pick:
        rows = [groups[k][b] for b in sorted(groups[k])]
        cases.append(case(f"c{len(cases)}", *k, rows, declr.h(c.seed, str(k))))
    run = RustRun(c, "emit", toolchain=STABLE, header=HEADER)
    res, failing = run.run(cases, on_compile_fail=lambda k, t: c.violation(k.info["declaration"], "a declaration does not compile", dict(rustc=t, src=k.src)))
    compare(c, cases, res, failing, keyf=lambda k, o: f"{k.info['declaration']} failing={k.info['failing_field']} budget={o}")
    c.validated = sum(len(k.expect) * 20 for k in cases if k.id in res)
    for k in c.rng.sample(cases, 3):
        c.sample(dict(declaration=k.info["declaration"], failing_field=k.info["failing_field"], expected=k.expect))


if __name__ == "__main__":
    main(check, "C16")
