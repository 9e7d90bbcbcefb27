"""C11: the bounds a generic error is text, an error and convertible under."""
from vlib import *
import declr

FMTS = ["Display", "Debug", "LowerHex", "Pointer"]
NUM = {"LowerHex": ["x", "#06x"], "UpperHex": ["X", "#06X"], "Octal": ["o", "+o"], "Binary": ["b", "#b"], "LowerExp": ["e", ".3e"], "UpperExp": ["E", "09E"]}
SP = {"Display": ["", ":>4"], "Debug": [":?", ":#?", ":x?", ":#X?", ":-^4?"], "Pointer": [":p"]}
# what may stand before the closing brace
WS = ["", "", "", " ", "\\t", "\\n ", "\\u{a0}", "\\u{3000}"]
GI = {"Full": ["Display", "Debug", "LowerHex", "Pointer"], "Disp": ["Display"], "Dbg": ["Debug"], "Hex": ["LowerHex", "Pointer"], "Nil": [], "Err": ["Display", "Debug"]}
OUT = {"Full": "Err", "Disp": "Full", "Dbg": "Nil", "Hex": "Full", "Nil": "Disp", "Err": "Dbg"}
HEADER = """
use thiserror::Error;
use std::{error::Error as StdError, fmt, marker::PhantomData, sync::Arc};
pub trait Mark {}
pub trait HasOut { type Out: Keep; }
pub trait Keep {}
macro_rules! fmts { ($t:ident: $($tr:ident)*) => { $(impl fmt::$tr for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(stringify!($t)) } })* } }
""" + "".join(f"pub struct {g}; fmts!({g}: {' '.join(t)}); impl HasOut for {g} {{ type Out = {OUT[g]}; }} impl Keep for {g} {{}}\n" for g, t in GI.items()) + """
impl StdError for Full {} impl StdError for Err_ {}
impl Mark for Full {} impl Mark for Dbg {} impl Mark for Nil {} impl Mark for Err_ {}
pub type P = Full;
pub struct Wrap<X>(pub X); pub struct Pair<X, Y>(pub X, pub Y); pub struct Of<const N: usize, X>(pub X);
impl<X: fmt::Debug> fmt::Display for Wrap<X> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("W") } }
impl<X> fmt::Debug for Wrap<X> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("W") } }
impl<X: fmt::LowerHex> fmt::LowerHex for Wrap<X> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("W") } }
impl<X: StdError> StdError for Wrap<X> {}
pub struct Lt<'a, X>(pub X, pub PhantomData<&'a ()>);
macro_rules! like { ($($t:ty, ($($g:tt)*);)*) => { $(
impl<$($g)* X: fmt::Debug> fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("W") } }
impl<$($g)* X> fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("W") } }
impl<$($g)* X: fmt::LowerHex> fmt::LowerHex for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("W") } }
impl<$($g)* X: StdError> StdError for $t {}
)* } }
like! { Of<N, X>, (const N: usize,); Lt<'a, X>, ('a,); }
impl<X: fmt::Debug, Y: fmt::Display> fmt::Display for Pair<X, Y> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("P") } }
impl<X, Y> fmt::Debug for Pair<X, Y> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("P") } }
impl<X: StdError, Y: StdError> StdError for Pair<X, Y> {}
pub struct Host; pub trait Gives<X> { type Out; } impl<X: HasOut> Gives<X> for Host { type Out = X::Out; }
pub trait Fwd { type Out; } impl<X: HasOut> Fwd for Wrap<X> { type Out = X::Out; }
pub mod q { pub trait Gives<A, X> { type Out; } impl<X: super::HasOut> Gives<super::Host, X> for super::Host { type Out = X::Out; }
 pub use super::{Wrap, Pair}; pub type T = super::Full; }
"""
for n in NUM:
    HEADER += f"pub struct Only{n}; fmts!(Only{n}: {n} Pointer); impl HasOut for Only{n} {{ type Out = Full; }} impl Keep for Only{n} {{}}\n"
    if n != "LowerHex":
        HEADER += f"fmts!(Full: {n}); impl<X: fmt::{n}> fmt::{n} for Wrap<X> {{ fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{ f.write_str(\"W\") }} }}\n"
        HEADER += f"impl<X: fmt::{n}, const N: usize> fmt::{n} for Of<N, X> {{ fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{ f.write_str(\"W\") }} }}\n"
        HEADER += f"impl<X: fmt::{n}> fmt::{n} for Lt<'_, X> {{ fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{ f.write_str(\"W\") }} }}\n"
HEADER += "pub struct Uns<G>(pub G, pub [u8]); impl<G: StdError> StdError for Uns<G> {} impl<G: Mark> Mark for Uns<G> {}\n"
for n in [*NUM, "Display", "Debug", "Pointer"]:
    HEADER += f"impl<G: fmt::{n}> fmt::{n} for Uns<G> {{ fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{ f.write_str(\"U\") }} }}\n"
HEADER = HEADER.replace("pub struct Err;", "pub struct Err_;").replace("fmts!(Err:", "fmts!(Err_:").replace("for Err {", "for Err_ {").replace("type Out = Err;", "type Out = Err_;")


def rty(ty, v, sub=None):
    h = ty[0]
    if len(ty) == 1:
        p = {"T": "T", "U": "U", "P": "P"}
        x = {"PairTU": ["Pair<T, U>", "q::Pair<T, U>"][v % 2], "P": ["P", "q::T"][v % 2],
             "T::Out": ["T::Out", "<T as HasOut>::Out", "<T as self::HasOut>::Out", "<Host as Gives<T>>::Out", "<Wrap<T> as Fwd>::Out", "<Host as q::Gives<Host, T>>::Out"][v % 6], "U::Out": ["U::Out", "<U as HasOut>::Out", "<Host as Gives<U>>::Out"][v % 3]}.get(h, h)
        return x if sub is None else re.sub(r"\b[TU]\b", lambda m: sub[m[0]], x.replace("q::T", "P").replace("T::Out", "<T as HasOut>::Out").replace("U::Out", "<U as HasOut>::Out") if "<" not in x or "Pair" in x else x)
    inner = rty(ty[1:], v // 2, sub)
    return {"Vec": "Vec<%s>", "Option": ["Option<%s>", "std::option::Option<%s>", "::core::option::Option<%s>", "core::option::Option<%s>", "::std::option::Option<%s>"][v % 5], "Box": "Box<%s>", "Wrap": ["Wrap<%s>", "q::Wrap<%s>", "self::Wrap<%s>", "Of<2, %s>", "Of<{ 1 + 1 }, %s>", "Lt<'static, %s>", "Of<{ 3 }, %s>"][v % 7],
            "Arc": ["Arc<%s>", "std::sync::Arc<%s>"][v % 2], "Phantom": "PhantomData<%s>", "Tup": ["(%s, u8)", "(u8, (Vec<%s>,))"][v % 2],
            "Arr": "[%s; 2]", "Dyn": "Box<dyn Fn(%s)>", "Fn": ["fn(%s) -> u8", "*const %s", "fn() -> %s"][v % 3]}[h] % inner


def gname(g, num):
    return "Err_" if g == "Err" else "Only" + num if g == "Hex" else g


def case(i, x, v, only=None):
    """only: the letters of the questions asked (D text, E error, F conversion)"""
    d = x["d"]
    fs = d["fs"]
    named = d["c"] == "struct" or (d["c"] != "tuple" and v % 2)
    if any(f["role"] == "named" or f["use"]["arg"] for f in fs):
        named = True
    macro = v % 7 == 0
    num = list(NUM)[v % 6]
    shared, each = d["c"] == "shared", d["c"] in ("each", "shared")
    spec = lambda tr, n: (":" + NUM[num][n % 2]) if tr == "LowerHex" else SP[tr][n % len(SP[tr])]
    margs = []
    names, parts, msgs = [], [], []
    for k, f in enumerate(fs):
        n = ("source" if f["role"] == "named" else ["a", "b", "r#type"][0 if shared else k]) if named else str(0 if each else k)
        names.append(n)
        t = rty(f["ty"], v >> k)
        if macro:
            margs.append(t)
            t = f"$t{k}"
        at = {"source": "#[source] ", "from": "#[from] "}.get(f["role"], "")
        parts.append(f"{at}{n}: {t}" if named else f"{at}{t}")
        ph, arg = "", ""
        bare = n.replace("r#", "")
        for tr in sorted(f["use"]["fmts"], key=lambda z: declr.h(v, z)):
            ph += "{%s%s%s}" % (bare, spec(tr, v), WS[declr.h(v, tr, "ws") % len(WS)])
            if v % 5 == 0:
                ph += "{%s%s}" % (bare, spec(tr, 0))
        if f["use"]["arg"]:
            ph, arg = "{%s:?}{%s}" % (bare, bare), f", {n} = 1"
        msgs.append((ph, arg))
    params = [p for p in ("T", "U") if p in x["params"]]
    order = params[::-1] if v % 4 == 1 else params
    wh = d["wh"]
    uses_out = {p: any(f["ty"][-1].startswith(p + "::") for f in fs) for p in params}
    gen = []
    lt = v % 6 == 2
    const = v % 6 == 3
    if lt:
        gen.append("'a")
    dflt = v % 9 == 4 and wh == "none" and not any(uses_out.values())
    for p in order:
        b = [z for z in (["?Sized"] if d["uns"] and p == "T" and not (wh == "where" and v % 3 == 0) else []) + ([("Mark" if wh == "inline" else "")] + (["HasOut"] if uses_out[p] else [])) if z]
        gen.append(p + (": " + " + ".join(b) if b else "") + (" = Full" if dflt else ""))
    if const:
        gen.append("const N: usize" + (" = 1" if dflt else ""))
    g = "<%s>" % ", ".join(gen)
    where = " where " + ", ".join(f"{p}: {'?Sized + ' if d['uns'] and p == 'T' and v % 3 == 0 else ''}Mark" for p in order) if wh == "where" else ""
    if wh == "where" and v % 2:
        where += ","
    extra = ([("life: &'a str" if named else "&'a str")] if lt else []) + ([("arr: [u8; N]" if named else "[u8; N]")] if const else [])
    if ["T"] in [f["ty"] for f in fs] and d["uns"] and extra:
        return None
    wrap = lambda ps, ex: ("{ %s }" if named else "(%s)") % ", ".join(ps + ex)
    tr = [f["role"] == "transparent" for f in fs]
    if any(tr) or any(f["role"] == "from" for f in fs):
        if not each:
            if lt or const:
                return None
    attr = lambda m, a: '#[error("%s"%s)]' % (m, a)
    if d["c"] in ("struct", "tuple", "enum1"):
        a = "#[error(transparent)]" if tr[0] else attr("m " + "".join(m for m, _ in msgs), "".join(y for _, y in msgs))
        b = wrap(parts, extra)
        if d["c"] == "enum1":
            text = f"pub enum S{g}{where} {{ {a} V{b}, #[error(\"other {{x}}\")] W {{ x: u8 }} }}"
        elif named:
            text = f"{a} pub struct S{g}{where} {b}"
        else:
            text = f"{a} pub struct S{g}{b}{where};"
    else:
        vs = []
        top = ""
        if shared:
            top = ("#[error(transparent)]" if tr[0] else attr("s" + msgs[0][0], msgs[0][1])) + " "
            vs.append('#[error("own")] Own' if v % 2 else '#[error("own {x}")] Own { x: u8 }')
        for k, f in enumerate(fs):
            a = "" if shared else "#[error(transparent)]" if tr[k] else attr("v" + msgs[k][0], msgs[k][1])
            vs.append(f"{a} V{k}{wrap([parts[k]], [])}")
        if extra:
            vs.append(f'#[error("extra")] X{wrap([], extra)}')
        text = f"{top}pub enum S{g}{where} {{ {', '.join(vs)} }}"
    text = f"#[derive(Error)] {text}"
    if macro:
        text = "macro_rules! mk_ { (%s) => { %s } } mk_!(%s);" % (", ".join(f"$t{k}:ty" for k in range(len(margs))), text, ", ".join(margs))
    dg = []
    for y in gen:
        y = y.split(" = ")[0]
        if y[0] in "TU" and d["dbg"] == "bounded":
            y += (" + " if ":" in y else ": ") + "fmt::Debug"
        dg.append(y)
    names_only = [y.split(":")[0].split(" =")[0].replace("const ", "") for y in gen]
    debug = f"impl<{', '.join(dg)}> fmt::Debug for S<{', '.join(names_only)}>{where} {{ fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {{ f.write_str(\"dbg\") }} }}"
    body, expect = [], {}
    for n, e in enumerate(sorted(x["envs"], key=lambda z: json.dumps(z["e"], sort_keys=True))):
        sub = {p: gname(e["e"][p], num) for p in "TU"}
        if d["uns"]:
            sub["T"] = f"Uns<{sub['T']}>"
        inst = "S<%s>" % ", ".join(["'static"] * lt + [sub[p] for p in order] + ["3"] * const)
        lab = "/".join(e["e"][p] for p in order)
        body.append(f'o.put("D {lab}", support::impls!({inst}: fmt::Display)); o.put("E {lab}", support::impls!({inst}: StdError));')
        expect[f"D {lab}"] = str(e["display"]).lower()
        expect[f"E {lab}"] = str(e["error"]).lower()
        for k, f in enumerate(fs):
            if f["role"] == "from":
                ty = f["ty"][1:] if f["ty"][0] == "Option" else f["ty"]
                body.append(f'o.put("F {lab}", support::impls!({inst}: From<{rty(ty, (v >> k) // (2 if ty is not f["ty"] else 1), sub)}>));')
                expect[f"F {lab}"] = "true"
    if only:
        body = [y for z in body for y in z.split("; ") if y[:7] == f'o.put("' and y[7] in only]
        body = [y if y.endswith(";") else y + ";" for y in body]
        expect = {k: y for k, y in expect.items() if k[0] in only}
    src = f"mod {i} {{ use super::*; {text} {debug}\n pub fn run(o: &mut support::Out) {{ {' '.join(body)} }} }}"
    return Case(i, src, f"{i}::run(o)", expect, dict(declaration=text))


INV = ["ErrorImpliesText", "UnusedImposesNothing", "FullSatisfiesAll"]


def conversions(c, n):
    """Generic declarations with a marked field: the conversion is there under the declared bounds alone (for C08)."""
    xs = [x for x in c.tlc("Bounds", dict(MaxFields=1, Tier=c.tier), invariants=INV, tag="bounds").cases if any(f["role"] == "from" for f in x["d"]["fs"])]
    xs += [x for x in c.tlc("Bounds", dict(MaxFields=3, Tier=c.tier), invariants=INV, simulate=300 if c.tier == "quick" else 2000, depth=5, tag="boundsmore", timeout=900).cases
           if len(x["d"]["fs"]) > 1 and any(f["role"] == "from" for f in x["d"]["fs"])]
    key = lambda x: json.dumps(x, sort_keys=True)
    xs.sort(key=key)
    cases = []
    for x in c.rng.sample(xs, min(n, len(xs))):
        e = sorted(x["envs"], key=lambda z: json.dumps(z["e"], sort_keys=True))
        k = case(f"c{len(cases)}", dict(x, envs=c.rng.sample(e, min(6, len(e)))), declr.h(c.seed, key(x)), only="F")
        if k:
            cases.append(k)
    run = RustRun(c, "bounds", toolchain=STABLE, header=HEADER)
    res, failing = run.run(cases, on_compile_fail=lambda k, t: c.violation(k.info["declaration"], "a generic declaration with a conversion does not compile", dict(rustc=t, src=k.src)))
    compare(c, cases, res, failing, keyf=lambda k, o: k.info["declaration"] + " " + o)
    return sum(len(k.expect) for k in cases if k.id in res)


def check(c):
    q = c.tier == "quick"
    inv = INV
    one = c.tlc("Bounds", dict(MaxFields=1, Tier=c.tier), invariants=inv, tag="one").cases
    more = c.tlc("Bounds", dict(MaxFields=3, Tier=c.tier), invariants=inv, simulate=600 if q else 3000, depth=5, tag="more", timeout=900).cases
    more = [x for x in more if len(x["d"]["fs"]) > 1]
    key = lambda x: json.dumps(x, sort_keys=True)
    one.sort(key=key)
    more.sort(key=key)
    c.extra["declarations"] = dict(one_field=len(one), more=len(more))
    # mostly declarations that tell instantiations apart
    tells = lambda x: any(e["display"] for e in x["envs"]) and len({(e["display"], e["error"]) for e in x["envs"]}) > 1

    def take(l, n):
        a, b = [x for x in l if tells(x)], [x for x in l if not tells(x)]
        a = c.rng.sample(a, min(len(a), n * 4 // 5))
        return a + c.rng.sample(b, min(len(b), n - len(a)))
    xs = take(one, 1000 if q else 7000) + take(more, 1100 if q else 9000)
    cases = []
    for x in xs:
        # a few instantiations of each, all of them for few parameters
        e = sorted(x["envs"], key=lambda z: json.dumps(z["e"], sort_keys=True))
        if len(e) > 8:
            yes = [z for z in e if z["error"]]
            e = c.rng.sample(yes, min(2, len(yes))) + c.rng.sample(e, 6)
            e = list({json.dumps(z["e"], sort_keys=True): z for z in e}.values())
        k = case(f"c{len(cases)}", dict(x, envs=e), declr.h(c.seed, key(x)))
        if k:
            cases.append(k)
    run = RustRun(c, "bounds", toolchain=STABLE, header=HEADER)
    res, failing = run.run(cases, on_compile_fail=lambda k, t: c.violation(k.info["declaration"], "a generic declaration does not compile", dict(rustc=t, src=k.src)))
    compare(c, cases, res, failing, keyf=lambda k, o: k.info["declaration"] + " " + o)
    c.validated = sum(len(k.expect) for k in cases if k.id in res)
    for k in c.rng.sample(cases, 4):
        c.sample(dict(declaration=k.info["declaration"], expected=dict(list(k.expect.items())[:8])))


if __name__ == "__main__":
    main(check, "C11")
