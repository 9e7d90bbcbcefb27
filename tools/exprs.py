"""Rendering of Expr behaviours: argument expressions on a fixed container."""
from vlib import *
import declr

HEADER = """
use thiserror::Error;
pub const K: i64 = 4;
pub mod m { pub const K2: i64 = 6; pub enum E { A { q: u8 }, B } }
pub fn pair<A, B>() -> i64 { 12 }
pub trait Sz<A, B> { const N: i64; } impl Sz<i64, u8> for u8 { const N: i64 = 13; }
pub trait It { type A; type T; }
pub fn dynk<X: ?Sized>() -> i64 { 14 }
pub fn dynk2<X, Y: ?Sized>() -> i64 { 15 }
pub struct Kn<const A: usize, const B: usize>; impl<const A: usize, const B: usize> Kn<A, B> { pub const N: i64 = (A * 10 + B) as i64; }
pub trait Pick<B> { type O; } impl<A, B> Pick<B> for A { type O = A; }
pub type Al<A, B> = <A as Pick<B>>::O;
#[derive(Debug, Clone, Copy)] pub struct Sub { pub k: i64, pub r#type: i64 }
impl Sub { pub fn get(&self) -> i64 { 17 } pub fn gen<A, B>(&self) -> i64 { 20 } }
pub struct S2<A, C = u8> { pub a: A, pub c: C }
pub trait N { fn n(&self) -> i64; } impl N for i64 { fn n(&self) -> i64 { *self } } impl N for &i64 { fn n(&self) -> i64 { **self } } impl N for &&i64 { fn n(&self) -> i64 { ***self } }
pub fn add(a: impl N, b: impl N) -> i64 { a.n() + b.n() }
pub fn add2<A, B>(a: impl N, b: impl N) -> i64 { a.n() + b.n() }
pub trait Ext { fn plus<A, B>(&self, o: &i64) -> i64; fn tup(&self) -> (i64, (i64, i64)); }
impl Ext for i64 { fn plus<A, B>(&self, o: &i64) -> i64 { self + o } fn tup(&self) -> (i64, (i64, i64)) { (0, (self + 1, 0)) } }
macro_rules! id { ($($t:tt)*) => { $($t)* } }
macro_rules! kv { ($k:ident => $($t:tt)*) => { $($t)* } }
pub fn inc(a: i64) -> i64 { a + 1 }
thread_local! { pub static LOG: std::cell::RefCell<Vec<i64>> = std::cell::RefCell::new(Vec::new()); }
pub fn seen(x: i64) -> i64 { LOG.with(|l| l.borrow_mut().push(x)); x }
pub fn log() -> String { LOG.with(|l| l.take().iter().map(i64::to_string).collect::<Vec<_>>().join(" ")) }
"""
CRATE = "#![allow(unused, redundant_semicolons, clippy::all)]"
FIELDS = [("x", "i64", "5"), ("y", "i64", "3"), ("n", "i64", "40"), ("t", "(i64, i64, (i64, i64), u8, u8, u8, u8, u8, u8, u8, i64, i64)", "(6, 2, (8, 9), 0, 0, 0, 0, 0, 0, 0, 21, 22)"),
          ("o", "Option<i64>", "Some(4)"), ("s", "Sub", "Sub { k: 7, r#type: 8 }"), ("v", "[i64; 3]", "[1, 2, 3]"),
          ("g", "fn(i64) -> i64", "inc"), ("r#type", "i64", "11"), ("b", "bool", "true"), ("T", "i64", "77")]
OPEN = {"paren": "(", "brace": "{", "brack": "["}
CLOSE = {"paren": ")", "brace": "}", "brack": "]"}


FRAG = {"gexpr": "expr", "glit": "literal", "gblk": "block", "gty": "ty"}


def tokens(tk, dense, frags=None):
    """frags: collects what comes through macro fragments; None writes invisible groups for the in-process harness.
    dense 0: all apart; 1: leading dots glued to the operator before; also field accesses."""
    out = ""
    prev = None
    for c, t in tk:
        if c in FRAG:
            inner = tokens(t, dense, frags)
            if frags is None:
                text = f"__NONE__({inner})"
            else:
                if (FRAG[c], inner) not in frags:
                    frags.append((FRAG[c], inner))
                text = "$g" + chr(97 + frags.index((FRAG[c], inner)))
        else:
            text = OPEN[c] + tokens(t, dense, frags) + CLOSE[c] if c in OPEN else t
        lead = c == "path" and t.startswith(".")
        glue = False
        if dense:
            if lead:
                glue = prev is not None and not prev.endswith(".") and not prev[-1].isalnum()
            elif text == ".":
                glue = not prev[-1:].isdigit() or prev.startswith(".") or dense == 2
                if prev[-1:].isdigit() and not prev.startswith("."):
                    glue = prev[0] in "0123456789" and dense == 2 and False
            elif prev == ".":
                glue = True
            elif c in ("paren", "brack"):
                glue = prev is not None and (prev[-1].isalnum() or prev[-1] in ">!)")
        out += ("" if glue or not out else " ") + text
        prev = text
    return out


def uses_dot(tk):
    return any((c in OPEN and uses_dot(t)) or (c == "path" and t.startswith(".")) for c, t in tk)


def has(tk, what):
    return any((c in OPEN and has(t, what)) or [c, t] == what for c, t in tk)


def attribute(case, sc, dense, trailing, count, frags):
    e = tokens(case["tk"], dense, frags)
    d = ":?" if case["ty"] == "d" else ""
    ph = "|".join("{" + p + (d if d and p != "x" else "") + "}" for p in sc["ph"])
    args = ", ".join((f"{a['n']} = " if a["n"] else "") + (e if a["v"] == "E" else f"seen({a['v']})" if count else a["v"]) for a in sc["args"])
    return f'#[error("{ph}", {args}{"," if trailing else ""})]'


def counts(v):
    """Whether evaluations are recorded."""
    return (v // 27) % 2 == 0


def declaration(case, sc, v, inproc=True):
    frags = None if inproc else []
    a = attribute(case, sc, v % 3, (v // 3) % 3 == 0, counts(v), frags)
    named = case["kind"] == "named"
    body = ", ".join(f"{n}: {t}" for n, t, _ in FIELDS) if named else ", ".join(t for _, t, _ in FIELDS)
    body = "{ %s }" % body if named else "(%s)" % body
    vals = ", ".join(f"{n}: {x}" for n, _, x in FIELDS) if named else ", ".join(x for _, _, x in FIELDS)
    vals = "{ %s }" % vals if named else "(%s)" % vals
    if (v // 9) % 3 == 0 and not has(case["tk"], ["path", "self"]):
        decl, ctor = f"pub enum S {{ #[error(\"other\")] O, {a} V {body}, #[error(\"{{n}}\", n = 3)] Q(i64) }}", f"S::V {vals}"
    else:
        decl, ctor = f"{a} pub struct S {body}{'' if named else ';'}", f"S {vals}"
    if inproc:
        return decl, ctor
    decl = "#[derive(Error, Debug)] " + decl
    if frags:
        pat = "; ".join(f"$g{chr(97 + k)}:{f}" for k, (f, _) in enumerate(frags))
        decl = f"macro_rules! mk {{ ({pat}) => {{ {decl} }} }} mk! {{ {'; '.join(t for _, t in frags)} }}"
    return decl, ctor


def families(c, quick, thorough):
    """Runs TLC for the requested families; returns (table, cases)."""
    table, cases = None, []
    for d, t, w in (quick if c.tier == "quick" else thorough):
        r = c.tlc("Expr", dict(Depth=d, Typed=t, Wide=w), invariants=["ScannerEndsExact"], constraints=["Report"],
                  tag=f"d{d}{'t' if t else 'u'}{w}", timeout=1500)
        for x in r.cases:
            if "table" in x:
                table = x["table"]
            else:
                x["fam"] = f"d{d}{'t' if t else 'u'}{w}"
                cases.append(x)
    return table, cases


def case(i, x, sc, want, v, std=False):
    decl, ctor = declaration(x, sc, v, inproc=False)
    src = f"mod {i} {{ use super::*; {decl}\n pub fn run(o: &mut support::Out) {{ o.put(\"t\", {ctor}); o.put(\"n\", log()); }} }}"
    obs = {"t": want, "n": " ".join(sc["ev"]) if counts(v) else ""}
    return Case(i, src, f"{i}::run(o)", obs, dict(declaration=decl, expected=obs))
