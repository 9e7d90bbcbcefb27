"""C05: a transparent layer cannot be told from what it wraps."""
from vlib import *
import declr

HEADER = """
use thiserror::Error;
use support::P;
use std::{error::Error as StdError, fmt, sync::Arc};
#[derive(Debug)] pub struct Src { pub n: u8, pub next: Option<Box<Src>> }
impl fmt::Display for Src { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "s{}", self.n) } }
impl StdError for Src { fn source(&self) -> Option<&(dyn StdError + 'static)> { self.next.as_deref().map(|x| x as _) } }
#[derive(Debug)] pub struct Manual { pub src: Option<Box<Src>> }
impl fmt::Display for Manual { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(&P("base"), f) } }
impl StdError for Manual { fn source(&self) -> Option<&(dyn StdError + 'static)> { self.src.as_deref().map(|x| x as _) } }
#[derive(Debug)] pub struct ManualRef<'a> { pub s: &'a str }
impl<'a> fmt::Display for ManualRef<'a> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(&P("base"), f) } }
impl<'a> StdError for ManualRef<'a> {}
#[derive(Error, Debug)] #[error("{}", P("base"))] pub struct Derived { #[source] pub src: Option<Src> }
#[derive(Error, Debug)] #[error("{}", P("base"))] pub struct DerivedRef<'a> { pub s: &'a str }
#[derive(Debug)] pub struct Bw<'a, T>(pub &'a T);
impl<'a, T: fmt::Display> fmt::Display for Bw<'a, T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
impl<'a, T: StdError> StdError for Bw<'a, T> { fn source(&self) -> Option<&(dyn StdError + 'static)> { self.0.source() } }
#[derive(Debug, Clone, Copy)] pub struct Zero<const N: u8>;
pub static ONE: Src = Src { n: 1, next: None };
pub static TWO: std::sync::OnceLock<Src> = std::sync::OnceLock::new();
impl<const N: u8> fmt::Display for Zero<N> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(&P("base"), f) } }
impl<const N: u8> StdError for Zero<N> { fn source(&self) -> Option<&(dyn StdError + 'static)> { match N { 0 => None, 1 => Some(&ONE), _ => Some(TWO.get_or_init(|| srcs(2).unwrap())) } } }
pub fn leak<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }
pub fn srcs(n: u8) -> Option<Src> { match n { 0 => None, 1 => Some(Src { n: 1, next: None }), _ => Some(Src { n: 1, next: Some(Box::new(Src { n: 2, next: None })) }) } }
pub fn addr(e: &dyn StdError) -> usize { e as *const dyn StdError as *const u8 as usize }
/// The chain below e, each element by its text, and whether it is the very object `inner` reports.
pub fn chain(e: &dyn StdError) -> String {
    let mut s = String::new(); let mut x = e.source();
    while let Some(y) = x { s += &format!("{y} "); x = y.source(); } s
}
pub fn first(e: &dyn StdError) -> usize { e.source().map_or(0, |x| addr(x)) }
"""
SPECS = ["", ":>9", ":^+#08.3", ":*<-4.0", ":#"]


def case(i, x, v):
    b, decls = x["base"], []
    open_ = b["borrowed"]
    ty = {("zero", False): "", ("manual", False): "Manual", ("derived", False): "Derived", ("manual", True): "ManualRef<'a>", ("derived", True): "DerivedRef<'a>"}[(b["kind"], open_)]
    n = b["src"]
    ty = ty if b["kind"] != "zero" else f"Zero<{n}>"
    val = f"Zero::<{n}>" if b["kind"] == "zero" else {"Manual": f"Manual {{ src: srcs({n}).map(Box::new) }}", "Derived": f"Derived {{ src: srcs({n}) }}", "ManualRef<'a>": 'ManualRef { s: "x" }',
           "DerivedRef<'a>": 'DerivedRef { s: "x" }'}[ty]
    # the address of the base's own source survives the wrapping when it sits behind a box
    steps = [f"let x0 = {val};"]
    for k, l in enumerate(x["layers"], 1):
        h = l["hold"]
        fty, wrap = {
            "plain": (ty, "{}"), "box": (f"Box<{ty}>", "Box::new({})"), "arc": (f"Arc<{ty}>", "Arc::new({})"),
            "dyn": ("Box<dyn StdError>" if v % 2 else "std::boxed::Box<dyn StdError + 'static>", "Box::new({})"), "sync": ("Box<dyn StdError + Send + Sync>", "Box::new({})"),
            "unwind": ("Box<dyn StdError + Send + Sync + std::panic::UnwindSafe>", "Box::new({})"),
            "send": ("Box<dyn StdError + Send>", "Box::new({})"), "arcdyn": ("Arc<dyn StdError + Send + Sync>", "Arc::new({})"), "rc": ("std::rc::Rc<dyn StdError>", "std::rc::Rc::new({})"),
            "bdyn": ("Box<dyn StdError + 'a>", "Box::new({})"), "bsend": ("Box<dyn StdError + Send + 'a>", "Box::new({})"), "bsync": ("Box<dyn StdError + Send + Sync + 'a>", "Box::new({})"),
            "bunwind": ("Box<dyn StdError + Send + Sync + std::panic::UnwindSafe + 'a>", "Box::new({})"), "bref": ("&'a (dyn StdError + Send + 'a)", "leak({})"),
            "gen": ("T", "{}"), "static": (f"&'static {ty}", "leak({})"), "ref": (f"&'a {ty}", "leak({})"),
            "dynref": ("&'a (dyn StdError + 'static)", "leak({})"), "borrow": (f"Bw<'a, {ty}>", "Bw(leak({}))")}[h]
        inner = ty
        if "'a" in fty:
            open_ = True
        gens = (["'a"] if "'a" in fty else []) + (["T"] if h == "gen" else [])
        where = ""
        g = "<%s>" % ", ".join(gens) if gens else ""
        fr = "#[from] " if l["from"] else ""
        fname = ["inner", "source", "r#type", "e"][(v >> k) % 4]
        if not l["from"] and fname == "source" and ("'a" in fty):
            pass
        body = f"{{ {fr}{fname}: {fty} }}" if l["named"] else f"({fr}{fty})"
        f = l["form"]
        if f == "struct":
            d = f"#[error(transparent)] pub struct L{k}{g} {body}{'' if l['named'] else ';'}"
            ctor = f"L{k}"
        elif f == "variant":
            vs = [f"#[error(transparent)] V{body}", '#[error("other {x}")] O { x: u8 }', '#[error("m")] U']
            r = v % 3
            d = f"pub enum L{k}{g} {{ {', '.join(vs[r:] + vs[:r])} }}"
            ctor = f"L{k}::V"
        else:
            d = f"#[error(transparent)] pub enum L{k}{g} {{ {', '.join([f'V{body}', '#[error(\"o\")] O'][::1 if v % 2 else -1])} }}"
            ctor = f"L{k}::V"
        decls.append(f"#[derive(Error, Debug)] {d}")
        new = f"L{k}" + ("<%s>" % ", ".join((["'a"] if "'a" in fty or ("'a" in inner and h == "gen") else []) + ([inner] if h == "gen" else [])) if gens else "")
        if h == "gen":
            new = f"L{k}<{inner}>"
        ty = new
        arg = wrap.format(f"x{k - 1}")
        at = ty.replace("'a", "'_")
        if l["from"]:
            steps.append(f"let x{k}: {at} = From::<{fty.replace(chr(39) + 'a', chr(39) + '_')}>::from({arg});")
        else:
            steps.append(f"let x{k}: {at} = {ctor}{'{ %s: %s }' % (fname, arg) if l['named'] else f'({arg})'};")
    top = f"x{len(x['layers'])}"
    fts = " ".join(f'o.put("t{j}", format!("{{{s}}}", {top})); o.put("d{j}", format!("{{{s}}}", &{top} as &dyn StdError));' for j, s in enumerate(SPECS))
    expect = {}
    for j in range(len(SPECS)):
        expect[f"t{j}"] = expect[f"d{j}"] = x["texts"][j]
    expect["chain"] = "".join(s + " " for s in x["chain"])
    obs = f'o.put("chain", chain(&{top}));'
    if b["kind"] != "derived" and n:
        steps[0] += " let a0 = first(&x0);"
        obs += f' o.put("same", first(&{top}) == a0);'
        expect["same"] = "true"
    src = f"mod {i} {{ use super::*; {' '.join(decls)}\n pub fn run(o: &mut support::Out) {{ {' '.join(steps)} {obs} {fts} }} }}"
    return Case(i, src, f"{i}::run(o)", expect, dict(declaration=" ".join(decls), base=b))


def check(c):
    q = c.tier == "quick"
    inv = ["NeverItself"]
    xs = c.tlc("Layers", dict(MaxLayers=1, Forms="all"), invariants=inv, properties=["Invisible"], tag="one").cases
    n1 = len(xs)
    two = c.tlc("Layers", dict(MaxLayers=2, Forms="few" if q else "all"), invariants=inv, properties=["Invisible"], tag="two", timeout=900).cases
    long = c.tlc("Layers", dict(MaxLayers=5, Forms="few"), invariants=inv, simulate=1500 if q else 15000, depth=7, tag="long").cases
    long = [x for x in long if len(x["layers"]) > 2]
    key = lambda x: json.dumps(x, sort_keys=True)
    xs.sort(key=key)
    two = sorted((x for x in two if len(x["layers"]) == 2), key=key)
    long.sort(key=key)
    c.extra["types"] = dict(one_layer=n1, two_layers=len(two), deeper=len(long))
    xs += c.rng.sample(two, min(len(two), 900 if q else 9000)) + c.rng.sample(long, min(len(long), 600 if q else 6000))
    cases = [case(f"c{i}", x, declr.h(c.seed, key(x))) for i, x in enumerate(xs)]
    run = RustRun(c, "layers", toolchain=STABLE, header=HEADER)
    res, failing = run.run(cases, on_compile_fail=lambda k, t: c.violation(k.info["declaration"], "a transparent declaration does not compile", dict(rustc=t, src=k.src)))
    compare(c, cases, res, failing, keyf=lambda k, o: k.info["declaration"] + " " + o)
    for k in c.rng.sample(cases, 4):
        c.sample(dict(declaration=k.info["declaration"], expected=k.expect))


if __name__ == "__main__":
    main(check, "C05")
