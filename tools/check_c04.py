"""C04: every variant renders with its own attribute, else the enum's default."""
from vlib import *
from render import *
import declr

HEADER = """
use thiserror::Error;
use support::P;
pub const k: P = P("k");
pub mod show {
    use super::P; use std::fmt::{self, Display, Formatter};
    pub fn f0(f: &mut Formatter) -> fmt::Result { f.write_str("fmt0") }
    pub fn f1(a: &P, f: &mut Formatter) -> fmt::Result { f.write_str("fmt1")?; Display::fmt(a, f) }
    pub fn f2(a: &P, b: &P, f: &mut Formatter) -> fmt::Result { f.write_str("fmt2")?; Display::fmt(a, f)?; Display::fmt(b, f) }
    pub fn f3(a: &P, b: &P, c: &P, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("fmt3")?; for x in [a, b, c] { Display::fmt(x, f)?; } Ok(()) }
    pub struct T<X>(X);
    pub trait Sh { fn g0(f: &mut Formatter) -> fmt::Result; fn g1(a: &P, f: &mut Formatter) -> fmt::Result; fn g2(a: &P, b: &P, f: &mut Formatter) -> fmt::Result; fn g3(a: &P, b: &P, c: &P, f: &mut Formatter) -> fmt::Result; }
    impl<X> Sh for T<X> { fn g0(f: &mut Formatter) -> fmt::Result { f0(f) } fn g1(a: &P, f: &mut Formatter) -> fmt::Result { f1(a, f) }
        fn g2(a: &P, b: &P, f: &mut Formatter) -> fmt::Result { f2(a, b, f) } fn g3(a: &P, b: &P, c: &P, f: &mut Formatter) -> fmt::Result { f3(a, b, c, f) } }
    pub fn h1<X: Display + ?Sized>(a: &X, f: &mut Formatter) -> fmt::Result { f.write_str("fmt1")?; Display::fmt(a, f) }
}
"""


def attr(at, own, v, fs, arity=None):
    if at == "none":
        return ""
    named = fs and not fs[0].isdigit()
    if at == "transparent":
        return "#[error(transparent)]"
    if at == "fmt":
        n = len(fs) if arity is None else arity
        p = [f"show::f{n}", f"self::show::f{n}", f"<show::T<u8> as show::Sh>::g{n}", f"<show::T<(u8, P)> as show::Sh>::g{n}", "show::h1::<P>"][v % (5 if n == 1 else 4)]
        return f"#[error(fmt = {p})]"
    m = {"lit": (f"{own} lit", ""), "all": (f"{own} " + "".join("{%s}" % f for f in fs), ""), "rev": (f"{own} " + "".join("{%s:?}" % f for f in reversed(fs)), ""),
         "dot": (f"{own} " + "{}" * len(fs) + "{end}", "".join(f", .{ident(f)}" for f in fs) + ', end = "end"'),
         "arg": (f"{own} {{x}} {{}}", ', "seven", x = 7'), "esc": (f"{{{{{own}}}}}{{:>4}}", ", 'x'"), "shadow": (f"{own} {{a}}", ', a = P("arg")'),
         "scope": (f"{own} {{k}}", ""), "fa": (f"{own} {{a}}", ""), "f0": (f"{own} {{0}}", ""), "dota": (f"{own} {{}}", ", .a"), "dot0": (f"{own} {{x}}", ", x = .0")}[at]
    return f"#[error({lit(m[0], v % 2)}{m[1]})]"


def marks(e, vs, v):
    """Markers that say nothing about text: #[source] on any field, #[from] on one variant's only field."""
    out, conv = [], False
    for i, x in enumerate(vs):
        m = [""] * len(x["fs"])
        z = declr.h(v, i)
        eff = e if x["at"] == "none" else x["at"]
        if len(m) == 1 and z % 4 == 0 and not conv:
            m[0], conv = "#[from] ", True
        elif m and z % 3 == 0 and eff != "transparent":
            m[z // 3 % len(m)] = "#[source] "
        out.append(m)
    return out


def variant(i, x, v, m):
    body = ""
    if x["st"] == "tuple":
        body = "(%s)" % ", ".join(f"{k}P" for k in m)
    if x["st"] == "named":
        body = "{ %s }" % ", ".join(f"{k}{ident(f)}: P" for k, f in zip(m, x["fs"]))
    return f"{attr(x['at'], f'V{i}', v + i, x['fs'])} V{i} {body}"


def text(x, v):
    inh = [len(y["fs"]) for y in x["vs"] if y["at"] == "none"]
    e = attr(x["e"], "E", v, ["a"] if x["e"] in ("fa", "dota") else ["0"], inh[0] if inh else v % 3)
    return f"{e} pub enum S {{ {', '.join(variant(i + 1, y, v, m) for i, (y, m) in enumerate(zip(x['vs'], marks(x['e'], x['vs'], v))))} }}"


def value(i, y):
    vals = [f'P("v{i}.{f}")' for f in y["fs"]]
    if y["st"] == "unit":
        return f"S::V{i}"
    if y["st"] == "tuple":
        return f"S::V{i}({', '.join(vals)})"
    return f"S::V{i} {{ {', '.join(f'{ident(f)}: {z}' for f, z in zip(y['fs'], vals))} }}"


def case(i, x, v):
    d = text(x, v)
    body, expect = ["o.put(\"display\", support::impls!(S: std::fmt::Display));"], {"display": "true"}
    manual = ""
    if not x["display"]:
        manual = 'impl std::fmt::Display for S { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("manual") } }'
    for n, y in enumerate(x["vs"]):
        for j, sp in enumerate(["", ":>9", ":^+#08.3"]):
            body.append(f'o.put("{n}.{j}", format_args!("{{{sp}}}", {value(n + 1, y)}));')
            expect[f"{n}.{j}"] = x["texts"][n][j] if x["display"] else "manual"
    src = f"mod {i} {{ use super::*; #[derive(Error, Debug)] {d} {manual}\n pub fn run(o: &mut support::Out) {{ {' '.join(body)} }} }}"
    return Case(i, src, f"{i}::run(o)", expect, dict(declaration=d))


def check(c):
    q = c.tier == "quick"
    inv = ["TextForAllOrNone", "Unmarked"]
    xs = c.tlc("EnumMsg", dict(MaxVariants=1, Tier=c.tier, Small=False), invariants=inv, properties=["Independent"], tag="one").cases
    runs = [("two", 2, not q, None), ("many", 5, False, 4000 if q else 40000)]
    if not q:
        runs.append(("three", 3, True, None))
    for tag, n, full, sim in runs:
        small = tag == "three" or (tag == "two" and q)
        xs += c.tlc("EnumMsg", dict(MaxVariants=n, Tier=c.tier, Small=small), invariants=inv, properties=[] if sim else ["Independent"], tag=tag,
                    simulate=sim and sim // 10, depth=9, timeout=900).cases
    seen, uniq = set(), []
    for x in xs:
        t = json.dumps(x, sort_keys=True)
        if t not in seen:
            seen.add(t)
            uniq.append((t, x))
    uniq.sort(key=lambda z: z[0])
    items, byid = [], {}
    for t, x in uniq:
        i = f"d{len(items)}"
        v = declr.h(c.seed, t)
        items.append((i, text(x, v)))
        byid[i] = (x, v)
    ip = InProc(c)
    res = ip.run(items)
    for i, src in items:
        x, _ = byid[i]
        kind, msgs, _ = res.get(i, ("missing", [], ""))
        if len(c.violations) > 100:
            break
        if x["rules"]:
            if kind != "err" or declr.rule_of(msgs[0]) not in set(x["rules"]) | {None}:
                c.violation(src, f"an enum breaking {x['rules']} is judged {kind} {msgs}", src)
        elif kind != "ok":
            c.violation(src, f"an enum with text for every variant, or for none, is judged {kind} {msgs}", src)
    c.validated += len(res)
    acc = [i for i, _ in items if not byid[i][0]["rules"]]
    c.extra["enums"] = dict(enumerated=len(items), accepted=len(acc))
    one = [i for i in acc if len(byid[i][0]["vs"]) <= 1]
    rest = [i for i in acc if len(byid[i][0]["vs"]) > 1]
    take = c.rng.sample(one, min(len(one), 400)) + c.rng.sample(rest, min(len(rest), 1500 if q else 14000))
    cases = [case(i, *byid[i]) for i in take]
    run = RustRun(c, "enums", toolchain=STABLE, header=HEADER)
    res, failing = run.run(cases, on_compile_fail=lambda k, t: c.violation(k.info["declaration"], "an accepted enum does not compile", dict(rustc=t, src=k.src)))
    compare(c, cases, res, failing, keyf=lambda k, o: k.info["declaration"] + " " + o)
    for k in c.rng.sample(cases, 4):
        c.sample(dict(declaration=k.info["declaration"], expected=k.expect))


if __name__ == "__main__":
    main(check, "C04")
