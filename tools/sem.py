"""Replay of DeclGen's semantic behaviours (source, provide, From) on compiled types."""
from vlib import *
import declr

HEADER = """
#![feature(error_generic_member_access)]
use thiserror::Error;
use std::backtrace::Backtrace;
use std::error::Error as StdError;
use std::sync::Arc;
use std::fmt;

pub struct Leaf<const K: u8> { pub id: u32, pub bt: Option<Backtrace>, pub src: Option<Box<Leaf<9>>> }
pub type E = Leaf<0>; pub type F = Leaf<1>; pub type G = Leaf<2>;
#[derive(Clone, Copy, PartialEq)] pub struct Tag(pub u32);
impl<const K: u8> fmt::Debug for Leaf<K> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "dbg{}", self.id) } }
impl<const K: u8> fmt::Display for Leaf<K> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "leaf#{}", self.id) } }
impl<const K: u8> StdError for Leaf<K> {
    fn source(&self) -> Option<&(dyn StdError + 'static)> { match &self.src { Some(s) => Some(&**s), None => None } }
    fn provide<'a>(&'a self, r: &mut std::error::Request<'a>) { r.provide_value(Tag(self.id)); if let Some(b) = &self.bt { r.provide_ref::<Backtrace>(b); } }
}
pub fn mk<const K: u8>(id: u32, bt: bool) -> Leaf<K> {
    Leaf { id, bt: if bt { Some(Backtrace::disabled()) } else { None }, src: Some(Box::new(Leaf { id: 100 + id, bt: None, src: Some(Box::new(Leaf { id: 200 + id, bt: None, src: None })) })) }
}
#[derive(Debug)] pub struct MyBt(pub Backtrace);
impl From<Backtrace> for MyBt { fn from(b: Backtrace) -> Self { MyBt(b) } }
impl std::ops::Deref for MyBt { type Target = Backtrace; fn deref(&self) -> &Backtrace { &self.0 } }

pub mod own {
    use super::*;
    /// An error with the standard backtrace's name.
    #[derive(Debug)] pub struct Backtrace { pub leaf: Leaf<5>, pub std: std::backtrace::Backtrace }
    impl fmt::Display for Backtrace { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(&self.leaf, f) } }
    impl StdError for Backtrace {
        fn source(&self) -> Option<&(dyn StdError + 'static)> { self.leaf.source() }
        fn provide<'a>(&'a self, r: &mut std::error::Request<'a>) { self.leaf.provide(r) }
    }
    impl std::ops::Deref for Backtrace { type Target = std::backtrace::Backtrace; fn deref(&self) -> &Self::Target { &self.std } }
    impl From<std::backtrace::Backtrace> for Backtrace { fn from(std: std::backtrace::Backtrace) -> Self { Backtrace { leaf: mk(0, false), std } } }
}
pub mod alias { pub type Backtrace<const K: u8> = super::Leaf<K>; pub type Option<A, B> = <(A, B) as super::Two>::L; }
pub trait Two { type L; } impl<A, B> Two for (A, B) { type L = E; }
pub trait Names { type Backtrace; type Option<T>; }
impl Names for E { type Backtrace = Backtrace; type Option<T> = (); } impl Names for u8 { type Backtrace = (); type Option<T> = Option<T>; }

/// Addresses of the parts of a field, labelled.
pub trait Obs { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>); }
fn addr<T: ?Sized>(t: &T) -> usize { t as *const T as *const u8 as usize }
impl<const K: u8> Obs for Leaf<K> { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) {
    out.push((addr(self), format!("f{i}")));
    if let Some(s) = &self.src { out.push((addr(&**s), format!("i{i}"))); }
    if let Some(b) = &self.bt { out.push((addr(b), format!("b{i}"))); } } }
impl Obs for Backtrace { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { out.push((addr(self), format!("o{i}"))); } }
impl Obs for own::Backtrace { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { out.push((addr(self), format!("f{i}"))); self.leaf.obs(i, out); out.push((addr(&self.std), format!("o{i}"))); } }
impl Obs for MyBt { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { out.push((addr(&self.0), format!("o{i}"))); } }
impl Obs for i32 { fn obs(&self, _: u32, _: &mut Vec<(usize, String)>) {} }
impl Obs for String { fn obs(&self, _: u32, _: &mut Vec<(usize, String)>) {} }
impl<T: Obs> Obs for Option<T> { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { if let Some(t) = self { t.obs(i, out) } } }
// A box that is an error is the field itself; what is inside is another error.
fn held<T: Obs + ?Sized>(t: &T, i: u32, out: &mut Vec<(usize, String)>) { let n = out.len(); t.obs(i, out); for x in &mut out[n..] { if x.1.starts_with('f') { x.1.replace_range(0..1, "p"); } } }
impl<T: Obs> Obs for Box<T> { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { out.push((addr(self), format!("f{i}"))); held(&**self, i, out) } }
impl<T: Obs + ?Sized> Obs for Arc<T> { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { out.push((addr(self), format!("f{i}"))); held(&**self, i, out) } }
impl Obs for Box<dyn StdError> { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { (**self).obs(i, out) } }
impl Obs for Box<dyn StdError + Send> { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { (**self).obs(i, out) } }
impl Obs for Box<dyn StdError + Send + Sync> { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { (**self).obs(i, out) } }
impl Obs for Box<dyn StdError + Send + Sync + std::panic::UnwindSafe> { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { (**self).obs(i, out) } }
impl<T: Obs + ?Sized> Obs for &'static T { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { out.push((addr(self), format!("f{i}"))); (**self).obs(i, out) } }
fn obs_dyn(e: &(dyn StdError + 'static), i: u32, out: &mut Vec<(usize, String)>) { if let Some(l) = e.downcast_ref::<E>() { l.obs(i, out) } }
impl Obs for dyn StdError { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { obs_dyn(self, i, out) } }
impl Obs for dyn StdError + Send { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { obs_dyn(self, i, out) } }
impl Obs for dyn StdError + Send + Sync { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { obs_dyn(self, i, out) } }
impl Obs for dyn StdError + Send + Sync + std::panic::UnwindSafe { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { obs_dyn(self, i, out) } }

fn label(p: usize, kinds: &str, parts: &[(usize, String)]) -> String {
    let mut l: Vec<&str> = parts.iter().filter(|(a, n)| *a == p && kinds.contains(n.chars().next().unwrap())).map(|x| x.1.as_str()).collect();
    l.dedup(); if l.is_empty() { "elsewhere".into() } else { l.join("=") }
}
pub fn look(o: &mut support::Out, k: &str, v: &(dyn StdError + 'static), parts: &[(usize, String)]) {
    o.put(&format!("{k}.source"), match v.source() { None => "none".to_string(), Some(s) => format!("{s}@{}", of(s, parts)) });
    o.put(&format!("{k}.bt"), match std::error::request_ref::<Backtrace>(v) { None => "none".to_string(), Some(b) => label(addr(b), "ob", parts) });
    o.put(&format!("{k}.tag"), match std::error::request_value::<Tag>(v) { None => "none".to_string(), Some(t) => t.0.to_string() });
    o.put(&format!("{k}.other"), std::error::request_value::<u64>(v).is_some() || std::error::request_ref::<str>(v).is_some());
    o.put(&format!("{k}.text"), v);
}
/// An error which takes no space: its number is in its type, what lies below it elsewhere.
#[derive(Debug)] pub struct Zero<const K: u32>;
pub fn below(k: u32) -> &'static Leaf<9> {
    static L: std::sync::OnceLock<Vec<Leaf<9>>> = std::sync::OnceLock::new();
    &L.get_or_init(|| (0..4).map(|k| Leaf { id: 100 + k, bt: None, src: None }).collect())[(k % 4) as usize]
}
impl<const K: u32> fmt::Display for Zero<K> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "leaf#{K}") } }
impl<const K: u32> StdError for Zero<K> {
    fn source(&self) -> Option<&(dyn StdError + 'static)> { Some(below(K)) }
    fn provide<'a>(&'a self, r: &mut std::error::Request<'a>) { r.provide_value(Tag(K)); }
}
impl<const K: u32> Obs for Zero<K> { fn obs(&self, i: u32, out: &mut Vec<(usize, String)>) { out.push((addr(self), format!("z{i}"))); out.push((addr(below(K)), format!("i{i}"))); } }
impl<const K: u32> Kept for Zero<K> { fn kept(&self) -> String { format!("zero#{K}") } }
fn zero(s: &(dyn StdError + 'static)) -> u32 { if s.is::<Zero<1>>() { 1 } else if s.is::<Zero<2>>() { 2 } else if s.is::<Zero<3>>() { 3 } else { 0 } }
/// What has no size may share its address with its neighbour.
fn of(s: &(dyn StdError + 'static), parts: &[(usize, String)]) -> String {
    match zero(s) { 0 => label(addr(s), "fip", parts), k => if parts.iter().any(|p| p.0 == addr(s) && p.1 == format!("z{k}")) { format!("f{k}") } else { "elsewhere".into() } }
}
/// What a conversion stored.
pub trait Kept { fn kept(&self) -> String; }
impl<const K: u8> Kept for Leaf<K> { fn kept(&self) -> String { format!("leaf#{}/{}", self.id, K) } }
impl Kept for Backtrace { fn kept(&self) -> String { format!("{:?}", self.status()).to_lowercase() } }
impl Kept for own::Backtrace { fn kept(&self) -> String { format!("own-{}-{}", self.leaf.id, self.std.kept()) } }
impl Kept for MyBt { fn kept(&self) -> String { format!("my-{}", self.0.kept()) } }
impl<T: Kept> Kept for Option<T> { fn kept(&self) -> String { match self { None => "None".into(), Some(t) => format!("Some({})", t.kept()) } } }
impl<T: Kept> Kept for Box<T> { fn kept(&self) -> String { format!("Box({}@{:x})", (**self).kept(), addr(&**self)) } }
impl<T: Kept + ?Sized> Kept for Arc<T> { fn kept(&self) -> String { format!("Arc({})", (**self).kept()) } }
impl<T: Kept + ?Sized> Kept for &'static T { fn kept(&self) -> String { format!("Ref({}@{:x})", (**self).kept(), addr(*self)) } }
fn kept_dyn(e: &(dyn StdError + 'static)) -> String { match e.downcast_ref::<E>() { Some(l) => format!("Dyn({}@{:x})", l.kept(), addr(l)), None => "Dyn(?)".into() } }
impl Kept for Box<dyn StdError> { fn kept(&self) -> String { kept_dyn(&**self) } }
impl Kept for Box<dyn StdError + Send> { fn kept(&self) -> String { kept_dyn(&**self) } }
impl Kept for dyn StdError { fn kept(&self) -> String { kept_dyn(self) } }
impl Kept for dyn StdError + Send + Sync { fn kept(&self) -> String { kept_dyn(self) } }
impl Kept for Box<dyn StdError + Send + Sync> { fn kept(&self) -> String { kept_dyn(&**self) } }
impl Kept for Box<dyn StdError + Send + Sync + std::panic::UnwindSafe> { fn kept(&self) -> String { kept_dyn(&**self) } }
pub mod spelt { pub use std::{backtrace::Backtrace, boxed::Box, option::Option}; pub mod option { pub use super::*; } }
pub fn boxed() -> Box<E> { Box::new(mk(0, false)) }
"""

NONE = {"Bt": "Backtrace::disabled()"}


def value(ty, val, i):
    bt = "true" if val in ("Bt", "SomeBt") else "false"
    E = f"mk({i}, {bt})"
    base = {"BtErr": f"own::Backtrace {{ leaf: {E}, std: Backtrace::disabled() }}", "AliasBt": E, "OptTwo": E, "QBt": "Backtrace::disabled()", "E": E, "F": E, "T": E, "MacroE": E, "BoxDyn": f"Box::<E>::new({E})", "BoxDynSync": f"Box::<E>::new({E})", "BoxSyncUnwind": f"Box::<E>::new({E})", "BoxSend": f"Box::<E>::new({E})", "ArcDyn": f"Arc::<E>::new({E})",
            "RefDyn": f"{{ let r: &'static E = Box::leak(Box::new({E})); r }}",
            "Zero": f"Zero::<{i}>", "BoxE": f"Box::new({E})", "ArcE": f"Arc::new({E})", "RefStaticE": f"Box::leak(Box::new({E}))",
            "Bt": "Backtrace::disabled()", "PathBt": "Backtrace::disabled()", "MacroBt": "Backtrace::disabled()",
            "ArcBt": "Arc::new(Backtrace::disabled())", "MyBt": "MyBt(Backtrace::disabled())", "Int": "5", "Str": "String::new()"}
    if ty in base:
        return base[ty]
    inner = {"OptZero": f"Zero::<{i}>", "OptE": E, "QOptE": E, "OptF": E, "StdOptE": E, "OptMacroE": E, "OptT": E, "OptBox": f"Box::<E>::new({E}) as Box<dyn StdError>", "OptBoxSend": f"Box::<E>::new({E}) as Box<dyn StdError + Send>", "OptBoxE": f"Box::new({E})", "OptArcE": f"Arc::new({E})",
             "OptBt": "Backtrace::disabled()", "OptArcBt": "Arc::new(Backtrace::disabled())"}[ty]
    return "None" if val == "None" else f"Some({inner})"


POOL = ["own::Backtrace", "E", "F", "G", "Option<E>", "Option<F>", "Option<G>", "Backtrace", "Option<Backtrace>", "Arc<Backtrace>", "MyBt", "i32", "String", "&'static str",
        "Box<dyn std::error::Error>", "Box<dyn std::error::Error + Send + Sync>", "Box<dyn std::error::Error + Send + Sync + std::panic::UnwindSafe>",
        "Option<Box<dyn std::error::Error>>", "Box<dyn std::error::Error + Send>", "Option<Box<dyn std::error::Error + Send>>", "Arc<dyn std::error::Error + Send + Sync>",
        "&'static (dyn std::error::Error + 'static)", "Box<E>", "Arc<E>", "&'static E", "Leaf<9>", "()", "Zero<1>", "Zero<2>", "Zero<3>", "Option<Zero<1>>"]
FROM_RUST = {"BtErr": "own::Backtrace", "E": "E", "F": "F", "T": "G", "BoxDyn": "Box<dyn std::error::Error>",
             "BoxDynSync": "Box<dyn std::error::Error + Send + Sync>",
             "BoxSyncUnwind": "Box<dyn std::error::Error + Send + Sync + std::panic::UnwindSafe>", "BoxE": "Box<E>", "ArcE": "Arc<E>",
             "RefStaticE": "&'static E", "BoxSend": "Box<dyn std::error::Error + Send>", "ArcDyn": "Arc<dyn std::error::Error + Send + Sync>",
             "RefDyn": "&'static (dyn std::error::Error + 'static)"}


def pattern(path, v):
    if v["style"] == "named":
        return path + " { " + ", ".join(f"{f['nm']}: f{k + 1}" for k, f in enumerate(v["fs"])) + " }"
    if v["style"] == "unit":
        return path
    return path + "(" + ", ".join(f"f{k + 1}" for k in range(len(v["fs"]))) + ")"


def construct(path, v, vals):
    if v["style"] == "unit":
        return path
    vs = [value(f["ty"], x, k + 1) for k, (f, x) in enumerate(zip(v["fs"], vals))]
    if v["style"] == "named":
        return path + " { " + ", ".join(f"{f['nm']}: {x}" for f, x in zip(v["fs"], vs)) + " }"
    return path + "(" + ", ".join(vs) + ")"


def render(i, d, obs, variety, want_from):
    """One module per declaration, observing all of its values."""
    types = dict(declr.TYPES)
    macro_args = []

    def mac(text):
        macro_args.append(text)
        return f"$t{len(macro_args) - 1}"
    dd = json.loads(json.dumps(d))
    for v in dd["vs"]:
        for j, f in enumerate(v["fs"], 1):
            if f["ty"] in ("Zero", "OptZero"):
                k = f"!{f['ty']}{j}"
                types[k] = f"Zero<{j}>" if f["ty"] == "Zero" else f"Option<Zero<{j}>>"
                f["ty"] = k
            if f["ty"] in ("MacroE", "OptMacroE", "MacroBt"):
                k = f"!{len(macro_args)}"
                types[k] = mac(declr.spelt({"MacroE": "E", "OptMacroE": "Option<E>", "MacroBt": "Backtrace"}[f["ty"]], variety))
                f["ty"] = k
    generic = any(f["ty"] in ("T", "OptT") for v in d["vs"] for f in v["fs"])
    # parameters the fields need, one they do not, and clauses which every impl has to repeat
    params, args, where = [], [], []
    if generic:
        bound = ["", ": fmt::Debug", ": StdError + 'static", " = G"][variety // 5 % 4]
        params.append("T" + bound)
        args.append("G")
        where += ["T: fmt::Display + Obs"] if variety // 3 % 2 else []
    if variety % 4 == 0:
        params.append("const N: usize" + (" = 3" if "=" in "".join(params) or variety // 7 % 3 == 0 else ""))
        args.append("3")
        where += ["[u8; N]: Default"] if variety // 11 % 2 else []
    text = declr.decl(dd, variety, types, name="S", derive="#[derive(Error, Debug)] ", params=params, where="where " + ", ".join(where) if where else "")
    if macro_args:
        params = ", ".join(f"$t{k}:ty" for k in range(len(macro_args)))
        text = f"macro_rules! mk_ {{ ({params}) => {{ {text} }} }} mk_!({', '.join(macro_args)});"
    ty = f"S<{', '.join(args)}>" if args else "S"
    enum = d["kind"] == "enum"
    body = []
    expect = {}
    for k, x in enumerate(obs):
        v = d["vs"][x["cur"] - 1]
        path = f"S::V{x['cur']}" if enum else "S"
        pat = pattern(path, v)
        parts = " ".join(f"Obs::obs(f{j + 1}, {j + 1}, &mut parts);" for j in range(len(v["fs"])))
        body.append(f"{{ let v: {ty} = {construct(path, v, x['vals'])}; let mut parts = Vec::new(); "
                    f"#[allow(irrefutable_let_patterns)] if let {pat} = &v {{ {parts} }} look(o, \"{k}\", &v, &parts); }}")
        s = x["source"]
        expect[f"{k}.source"] = ("none" if s[0] == "none" else f"leaf#{s[1]}@f{s[1]}" if s[0] == "field" else f"leaf#{100 + s[1]}@i{s[1]}")
        b = x["bt"]
        expect[f"{k}.bt"] = "none" if b[0] == "none" else ("o" if b[0] == "own" else "b") + str(b[1])
        expect[f"{k}.tag"] = "none" if x["tag"] == 0 else str(x["tag"])
        expect[f"{k}.other"] = "false"
        eff = v["at"] if enum and any(a in ("msg", "transparent") for a in v["at"]) else d["at"]
        expect[f"{k}.text"] = "m" if "transparent" not in eff else "leaf#1"
    if want_from:
        froms = obs[0]["froms"]
        rust = lambda f: f"Zero<{f['f']}>" if f["ty"] in ("Zero", "OptZero") else FROM_RUST[f["ty"]]
        have = {rust(f) for f in froms}
        pool = [p for p in POOL if p in have or declr.h(variety, p) % 3 != 0 or p in ("E", "Option<E>", "Backtrace")]
        got = ", ".join(f"({rust_str(p)}, support::impls!({ty}: From<{p}>))" for p in pool)
        body.append(f"o.put(\"froms\", [{got}].iter().filter(|x: &&(&str, bool)| x.1).map(|x| x.0).collect::<Vec<_>>().join(\" | \"));")
        expect["froms"] = " | ".join(p for p in pool if p in have)
        for f in froms:
            v = d["vs"][f["v"] - 1]
            t = rust(f)
            path = f"S::V{f['v']}" if enum else "S"
            inner = {"own::Backtrace": "own::Backtrace { leaf: mk(77, false), std: Backtrace::disabled() }", "E": "mk::<0>(77, false)", "F": "mk::<1>(77, false)", "G": "mk::<2>(77, false)", "Box<E>": "Box::new(mk::<0>(77, false))",
                     "Arc<E>": "Arc::new(mk::<0>(77, false))", "&'static E": "&*Box::leak(Box::new(mk::<0>(77, false)))", FROM_RUST["RefDyn"]: "&*Box::leak(Box::new(mk::<0>(77, false)))",
                     FROM_RUST["ArcDyn"]: "Arc::<E>::new(mk::<0>(77, false))"}.get(t, t.replace("<", "::<") if t.startswith("Zero") else "Box::new(mk::<0>(77, false))")
            keep = "; ".join(f"s.push_str(&format!(\" {j + 1}={{}}\", Kept::kept(f{j + 1})))" for j in range(len(v["fs"])))
            for how in ("from", "q"):
                conv = (f"let v: {ty} = From::from(x);" if how == "from" else
                        f"fn q(x: {t}) -> Result<(), {ty}> {{ Err(x)?; Ok(()) }} let v: {ty} = match q(x) {{ Err(e) => e, Ok(()) => unreachable!() }};")
                body.append(f"{{ let x: {t} = {inner}; let given = Kept::kept(&x); {conv} "
                            f"let mut s = String::new(); #[allow(irrefutable_let_patterns)] if let {pattern(path, v)} = &v {{ {keep}; }} else {{ s.push_str(\"wrong variant\"); }} "
                            f"o.put(\"{how}{f['v']}\", s.replace(&given, \"GIVEN\")); }}")
                w = ""
                for j, fd in enumerate(v["fs"]):
                    if j + 1 == f["f"]:
                        w += f" {j + 1}=" + ("Some(GIVEN)" if fd["ty"] in ("OptZero", "OptE", "OptF", "OptBox", "StdOptE", "OptT", "OptMacroE", "OptBoxSend", "QOptE", "OptBoxE", "OptArcE") else "GIVEN")
                    else:
                        st = "captured"
                        w += f" {j + 1}=" + {"Bt": st, "PathBt": st, "MacroBt": st, "QBt": st, "BtErr": f"own-0-{st}", "OptBt": f"Some({st})", "ArcBt": f"Arc({st})",
                                            "MyBt": f"my-{st}", "OptArcBt": "?"}[fd["ty"]]
                expect[f"{how}{f['v']}"] = w
    src = f"mod {i} {{ use super::*; {text}\n pub fn run(o: &mut support::Out) {{ {' '.join(body)} }} }}"
    return Case(i, src, f"{i}::run(o)", expect, dict(declaration=text, values=len(obs)))


SEM_INV = ["AtMostOneEach", "FromConstructible", "FromIsSource", "TransparentOneField", "NoProviderNoAnswer", "TextTotal"]
QUICK = {"sem": (1, 2, 1, 1), "semtypes": (1, 1, 2, 1), "semenumtypes": (1, 1, 2, 1), "semenum1": (1, 2, 1, 1), "enumsem": (1, 1, 1, 2)}
THOROUGH = {"sem": (1, 3, 1, 1), "semtypes": (1, 2, 1, 1), "semenumtypes": (1, 2, 1, 1), "semenum1": (1, 2, 2, 1), "enumsem": (1, 2, 1, 2)}


def behaviours(c, relevant, take):
    """Groups of behaviours by declaration, sampled: {mode: [(decl, [obs])]}"""
    out = []
    modes = QUICK if c.tier == "quick" else THOROUGH
    for mode, (a, fl, fa, v) in modes.items():
        r = c.tlc("DeclGen", dict(Mode=mode, MaxAt=a, MaxFields=fl, MaxFieldAt=fa, MaxVariants=v), invariants=SEM_INV, tag=mode, timeout=900)
        groups = {}
        for x in r.cases:
            groups.setdefault(json.dumps(x["d"], sort_keys=True), []).append(x)
        keys = sorted(k for k in groups if relevant(groups[k]))
        total = len(keys)
        n = take.get(mode)
        if n and len(keys) > n:
            keys = c.rng.sample(keys, n)
        c.extra.setdefault("declarations", {})[mode] = dict(enumerated=total, replayed=len(keys))
        for k in keys:
            g = sorted(groups[k], key=lambda x: (x["cur"], x["vals"]))
            if len(g) > 40:
                g = c.rng.sample(g, 40)
            out.append((json.loads(k), g))
    return out


def run_sem(c, relevant, take, keys, want_from=False):
    groups = behaviours(c, relevant, take)
    cases = []
    for d, g in groups:
        i = f"c{len(cases)}"
        cases.append(render(i, d, g, declr.h(c.seed, json.dumps(d, sort_keys=True)), want_from))
    for k in cases:
        k.expect = {a: b for a, b in k.expect.items() if keys(a)}
    run = RustRun(c, "sem", toolchain=NIGHTLY, header=HEADER, run_env={"RUST_LIB_BACKTRACE": "1"})
    res, failing = run.run(cases, on_compile_fail=lambda k, t: c.violation(k.info["declaration"], "an accepted declaration does not compile", dict(rustc=t, src=k.src)))
    compare(c, cases, res, failing, keyf=lambda k, o: k.info["declaration"] + " " + o)
    if want_from:
        # the same conversions with backtraces switched off: nothing is captured, everything else is as before
        off = run.execute({"RUST_LIB_BACKTRACE": "0"})
        for k in cases:
            k.expect = {a: b.replace("captured", "disabled") for a, b in k.expect.items()}
        compare(c, cases, off, failing, keyf=lambda k, o: k.info["declaration"] + " off " + o)
    c.validated = sum(len(k.expect) for k in cases if k.id in res)
    for k in c.rng.sample(cases, min(3, len(cases))):
        c.sample(dict(declaration=k.info["declaration"], expected=dict(list(k.expect.items())[:6])))
    return cases, res
