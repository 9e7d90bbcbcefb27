"""C13: one declaration in many scopes."""
from vlib import *
import declr

HEADER = """
pub mod sup {
    use std::backtrace::Backtrace; use std::error::Error as StdError; use std::fmt;
    pub struct Leaf<const K: u8>(pub &'static str, pub Option<Backtrace>);
    impl<const K: u8> fmt::Debug for Leaf<K> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "dbg-{}", self.0) } }
    impl<const K: u8> fmt::Display for Leaf<K> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
    impl<const K: u8> StdError for Leaf<K> { fn provide<'a>(&'a self, r: &mut std::error::Request<'a>) { if let Some(b) = &self.1 { r.provide_ref::<Backtrace>(b); } } }
    pub fn leaf<const K: u8>(bt: bool) -> Leaf<K> { Leaf(["leaf0", "leaf1", "leaf2", "leaf3"][K as usize], if bt { Some(Backtrace::disabled()) } else { None }) }
    pub fn bt() -> Backtrace { Backtrace::disabled() }
    pub type Dyn = Box<dyn StdError + Send + Sync>;
    pub fn id<T>(x: T) -> T { x }
    pub fn pathbuf(s: &str) -> std::path::PathBuf { s.into() }
    pub fn string(s: &str) -> String { s.to_string() }
    pub fn dynamic() -> Box<dyn StdError + Send + Sync> { Box::new(leaf::<2>(false)) }
    pub fn look(o: &mut support::Out, k: &str, v: &(dyn StdError + 'static)) { look2(o, k, v) }
    pub fn look2(o: &mut support::Out, k: &str, v: &dyn StdError) {
        o.put(&format!("{k}.text"), v);
        let mut s = String::new(); let mut e = v.source(); while let Some(x) = e { s.push_str(&format!("{x};")); e = x.source(); }
        o.put(&format!("{k}.chain"), s);
        o.put(&format!("{k}.bt"), std::error::request_ref::<Backtrace>(v).is_some());
    }
    pub fn from<T: From<L> + StdError + 'static, L>(o: &mut support::Out, k: &str, l: L) { look(o, k, &T::from(l)); }
    pub fn pointer(o: &mut support::Out, k: &str, v: &dyn StdError, want: &str) { let got = v.to_string(); o.put(&format!("{k}.text"), if got == want { "as written".to_string() } else { format!("{got} for {want}") }); }
    pub fn show1(o: &mut support::Out, k: &str, v: &dyn fmt::Display) { o.put(&format!("{k}.text"), v); }
    pub struct Thing {}
    pub mod thing {}
}
"""
KEYWORDS = {"type", "gen", "async", "dyn", "try", "match", "fn", "move", "box"}
DEFAULT = {"ty": "Type", "v1": "V1", "v2": "V2", "v3": "V3", "f1": "a", "f2": "b", "an": "n", "tp": "P", "lt": "a", "cp": "N", "fn": "show"}
U8, STR, LEAF = "::core::primitive::u8", "::std::string::String", "crate::sup::Leaf::<%d>"
OPT, BT, RESULT = "::core::option::Option", "::std::backtrace::Backtrace", "::core::fmt::Result"
DER = "#[derive(::core::fmt::Debug, ::thiserror::Error)] "


class Names(dict):
    def __init__(self, x):
        d = dict(DEFAULT)
        if x["names"]:
            d.update({k: "é" if v == "e_acute" else v for k, v in x["names"].items()})
        for k, v in d.items():
            self[k] = ("r#" + v if v in KEYWORDS else v)
            self["u" + k] = v
        self["lt"] = "'" + self["ult"]


class Pieces:
    def __init__(self, place, v):
        self.place, self.v, self.list = place or {}, v, []

    def __call__(self, cls, frag, text):
        w = self.place.get(cls, "d") if isinstance(self.place, dict) else "d"
        if w == "d" or (text == "" and frag != "tt"):
            return text
        if frag == "literal" and (self.v + len(self.list)) % 2:
            frag = "expr"
        # a piece inside a piece comes with it
        text = re.sub(r"\$p(\d+)", lambda m: self.list[int(m[1])][2], text)
        k = len(self.list)
        self.list.append((w, frag, text))
        return f"$($p{k})*" if frag == "tt" else f"$p{k}"

    def wrap(self, text, before=""):
        if not self.list:
            return before + text

        def pat(k, frag):
            return f"[$($p{k}:tt)*]" if frag == "tt" else f"[$p{k}:{frag}]"

        def use(k, frag):
            return f"[$($p{k})*]" if frag == "tt" else f"[$p{k}]"
        L = list(enumerate(self.list))
        inner = f"macro_rules! mk_inner {{ ({' '.join(pat(k, f) for k, (w, f, t) in L)}) => {{ {text} }} }}"
        if all(w == "u" for _, (w, f, t) in L):
            call = f"mk_inner! {{ {' '.join('[' + t + ']' for _, (w, f, t) in L)} }}"
            return f"{before}{inner} {call}"
        outer = (f"macro_rules! mk_outer {{ ({' '.join(pat(k, f) for k, (w, f, t) in L if w == 'u')}) => {{ mk_inner! {{ "
                 f"{' '.join(use(k, f) if w == 'u' else '[' + t + ']' for k, (w, f, t) in L)} }} }} }}")
        return f"{before}{inner} {outer} mk_outer! {{ {' '.join('[' + t + ']' for _, (w, f, t) in L if w == 'u')} }}"


def field(P, n, name, ty, at=""):
    a = f"#[{P('attr', 'meta', at)}] " if at else ""
    nm = P("field", "ident", name) + ": " if name else ""
    return a + nm + P("ftype", "ty", ty)


def msg(P, text, args=""):
    return f"#[error({P('msg', 'literal', rust_str(text))}{args and ', ' + args})] "


def ref(P, name):
    return "." + P("ref", "ident", name)


def body(P, parts, brace=True):
    inner = ", ".join(parts)
    if brace:
        return "{ " + inner + " }"
    return "(" + inner + ")"


def t_named(n, P):
    an = P("ref", "ident", n["an"])
    a1 = f"{ref(P, n['f2'])}.len(), {an} = {ref(P, n['f1'])} + 1"
    d = (DER + msg(P, "{%s}|{%s:?}|{%s}|{}" % (n["uf1"], n["uf2"], n["uan"]), P("arg", "tt", a1)) + P("vis", "vis", "pub") + " struct " + P("type", "ident", n["ty"])
         + body(P, [field(P, n, n["f1"], U8), field(P, n, n["f2"], STR)]))
    return d, [("0", f"{n['ty']} {{ {n['f1']}: 7, {n['f2']}: crate::sup::string(\"q\") }}")], {"0": ('7|"q"|8|1', "", False)}, [n["ty"]]


def t_tuple(n, P):
    an = P("ref", "ident", n["an"])
    d = (DER + msg(P, "{0}|{1:?}|{%s}" % n["uan"], P("arg", "tt", f"{an} = .1.len() + usize_of(.0)".replace("usize_of", "crate::usize_of").replace(".0)", "*.0)")))
         + P("vis", "vis", "pub") + " struct " + P("type", "ident", n["ty"]) + body(P, [field(P, n, "", U8), field(P, n, "", STR)], False) + ";")
    return d, [("0", f"{n['ty']}(7, crate::sup::string(\"q\"))")], {"0": ('7|"q"|8', "", False)}, [n["ty"]]


def t_unit(n, P):
    d = DER + msg(P, "text {{x}}" if P.v % 2 else "text") + P("vis", "vis", "pub") + " struct " + P("type", "ident", n["ty"]) + ";"
    return d, [("0", n["ty"])], {"0": ("text {x}" if P.v % 2 else "text", "", False)}, [n["ty"]]


def t_enum(n, P):
    an = P("ref", "ident", n["an"])
    dflt = msg(P, "d{{}}{%s}" % n["uan"], P("arg", "tt", f"{an} = 1 + 1"))
    v1 = msg(P, "a{%s}{}" % n["uf1"], P("arg", "tt", ref(P, n["f2"]))) + P("variant", "ident", n["v1"]) + body(P, [field(P, n, n["f1"], U8), field(P, n, n["f2"], STR)])
    v2 = P("variant", "ident", n["v2"]) + body(P, [field(P, n, "", U8)], False)
    v3 = msg(P, "c") + P("variant", "ident", n["v3"])
    d = DER + dflt + P("vis", "vis", "pub") + " enum " + P("type", "ident", n["ty"]) + " { " + ", ".join([v1, v2, v3]) + " }"
    t = n["ty"]
    return d, [("0", f"{t}::{n['v1']} {{ {n['f1']}: 5, {n['f2']}: crate::sup::string(\"z\") }}"), ("1", f"{t}::{n['v2']}(5)"), ("2", f"{t}::{n['v3']}")], {
        "0": ("a5z", "", False), "1": ("d{}2", "", False), "2": ("c", "", False)}, [t]


def t_source(n, P):
    d = (DER + msg(P, "s{%s}{source:?}" % n["uf1"]) + P("vis", "vis", "pub") + " struct " + P("type", "ident", n["ty"])
         + body(P, [field(P, n, "source", f"{OPT}<{LEAF % 0}>"), field(P, n, n["f1"], U8), field(P, n, n["f2"], BT, "backtrace")]))
    t = n["ty"]
    out = [(str(k), f"{t} {{ source: {s}, {n['f1']}: 5, {n['f2']}: crate::sup::bt() }}") for k, s in
           enumerate([f"{OPT}::None", f"{OPT}::Some(crate::sup::leaf::<0>(false))"])]
    return d, out, {"0": ("s5None", "", True), "1": ("s5Some(dbg-leaf0)", "leaf0;", True)}, [t]


def t_sources(n, P):
    v1 = msg(P, "{%s}" % n["uf1"]) + P("variant", "ident", n["v1"]) + body(P, [field(P, n, n["f1"], U8), field(P, n, n["f2"], f"{OPT}<{LEAF % 0}>", "source"), field(P, n, "backtrace", f"{OPT}<{BT}>", "backtrace")])
    v2 = msg(P, "w{source:>6}") + "W2" + body(P, [field(P, n, "source", LEAF % 1, "backtrace")])
    d = DER + P("vis", "vis", "pub") + " enum " + P("type", "ident", n["ty"]) + " { " + v1 + ", " + v2 + " }"
    t = n["ty"]
    return d, [("0", f"{t}::{n['v1']} {{ {n['f1']}: 5, {n['f2']}: {OPT}::Some(crate::sup::leaf::<0>(false)), backtrace: {OPT}::Some(crate::sup::bt()) }}"),
               ("1", f"{t}::{n['v1']} {{ {n['f1']}: 5, {n['f2']}: {OPT}::None, backtrace: {OPT}::None }}"),
               ("2", f"{t}::W2 {{ source: crate::sup::leaf::<1>(true) }}")], {
        "0": ("5", "leaf0;", True), "1": ("5", "", False), "2": ("wleaf1", "leaf1;", True)}, [t]


def t_from(n, P):
    v1 = msg(P, "x{%s}" % n["uf1"]) + P("variant", "ident", n["v1"]) + body(P, [field(P, n, n["f1"], LEAF % 0, "from"), field(P, n, n["f2"], f"{OPT}<{BT}>", "backtrace")])
    v2 = msg(P, "y") + P("variant", "ident", n["v2"]) + "( #[" + P("attr", "meta", "from") + "] #[" + P("attr", "meta", "backtrace") + "] " + P("ftype", "ty", LEAF % 1) + ")"
    v3 = msg(P, "z{source}") + P("variant", "ident", n["v3"]) + body(P, [field(P, n, "source", LEAF % 2), field(P, n, "backtrace", f"::std::sync::Arc<{BT}>", "backtrace")])
    d = DER + P("vis", "vis", "pub") + " enum " + P("type", "ident", n["ty"]) + " { " + ", ".join([v1, v2, v3]) + " }"
    t = n["ty"]
    return d, [("0", f"{t}::{n['v1']} {{ {n['f1']}: crate::sup::leaf::<0>(false), {n['f2']}: {OPT}::None }}"), ("1", f"{t}::{n['v2']}(crate::sup::leaf::<1>(false))"),
               ("2", f"{t}::{n['v3']} {{ source: crate::sup::leaf::<2>(false), backtrace: ::std::sync::Arc::new(crate::sup::bt()) }}"),
               ("f3", f"FROM {t} crate::sup::leaf::<0>(false)"), ("f4", f"FROM {t} crate::sup::leaf::<1>(true)")], {
        "0": ("xleaf0", "leaf0;", False), "1": ("y", "leaf1;", False), "2": ("zleaf2", "leaf2;", True), "f3": ("xleaf0", "leaf0;", True), "f4": ("y", "leaf1;", True)}, [t]


def t_optfrom(n, P):
    d = DER + msg(P, "m") + P("vis", "vis", "pub") + " struct " + P("type", "ident", n["ty"]) + body(P, [field(P, n, "", f"{OPT}<{LEAF % 0}>", "from"), field(P, n, "", BT)], False) + ";"
    t = n["ty"]
    return d, [("0", f"{t}({OPT}::None, crate::sup::bt())"), ("f1", f"FROM {t} crate::sup::leaf::<0>(false)")], {"0": ("m", "", True), "f1": ("m", "leaf0;", True)}, [t]


def t_transparent(n, P):
    d = DER + "#[" + P("attr", "meta", "error(transparent)") + "] " + P("vis", "vis", "pub") + " struct " + P("type", "ident", n["ty"]) + body(P, [field(P, n, n["f1"], LEAF % 0)])
    return d, [("0", f"{n['ty']} {{ {n['f1']}: crate::sup::leaf::<0>(false) }}")], {"0": ("leaf0", "", False)}, [n["ty"]]


def t_transenum(n, P):
    v1 = "#[" + P("attr", "meta", "error(transparent)") + "] " + P("variant", "ident", n["v1"]) + body(P, [field(P, n, n["f1"], LEAF % 0, "from")])
    v2 = "#[" + P("attr", "meta", "error(transparent)") + "] " + P("variant", "ident", n["v2"]) + body(P, [field(P, n, "", "crate::sup::Dyn")], False)
    v3 = msg(P, "m") + P("variant", "ident", n["v3"])
    d = DER + P("vis", "vis", "pub") + " enum " + P("type", "ident", n["ty"]) + " { " + ", ".join([v1, v2, v3]) + " }"
    t = n["ty"]
    return d, [("0", f"{t}::{n['v1']} {{ {n['f1']}: crate::sup::leaf::<0>(false) }}"), ("1", f"{t}::{n['v2']}(crate::sup::dynamic())"), ("2", f"{t}::{n['v3']}"),
               ("f3", f"FROM {t} crate::sup::leaf::<0>(false)")], {"0": ("leaf0", "", False), "1": ("leaf2", "", False), "2": ("m", "", False), "f3": ("leaf0", "", False)}, [t]


def t_generic(n, P):
    tp = P("param", "ident", n["tp"])
    d = (DER + msg(P, "g{%s}{%s:?}" % (n["uf1"], n["uf1"])) + P("vis", "vis", "pub") + " struct " + P("type", "ident", n["ty"]) + f"<{tp}> "
         + body(P, [field(P, n, n["f1"], n["tp"] if P.place and P.place.get("ftype") else tp), field(P, n, n["f2"], f"{OPT}<{n['tp']}>", "source")]))
    t = n["ty"]
    return d, [("0", f"{t}::<{LEAF % 0}> {{ {n['f1']}: crate::sup::leaf::<0>(false), {n['f2']}: {OPT}::Some(crate::sup::leaf::<0>(true)) }}")], {"0": ("gleaf0dbg-leaf0", "leaf0;", False)}, [f"{t}<{LEAF % 0}>"]


def t_generics(n, P):
    lt, tp, cp = P("life", "lifetime", n["lt"]), P("param", "ident", n["tp"]), P("param", "ident", n["cp"])
    v1 = msg(P, "{%s} {%s}" % (n["uf1"], n["uf2"])) + P("variant", "ident", n["v1"]) + body(P, [field(P, n, n["f1"], f"&{n['lt']} ::core::primitive::str"), field(P, n, n["f2"], n["tp"])])
    v2 = msg(P, "{0:?}") + P("variant", "ident", n["v2"]) + body(P, [field(P, n, "", f"[{U8}; {n['cp']}]")], False)
    v3 = "#[" + P("attr", "meta", "error(transparent)") + "] " + P("variant", "ident", n["v3"]) + body(P, [field(P, n, "", LEAF % 0)], False)
    v4 = msg(P, "s") + "W4" + body(P, [field(P, n, "", LEAF % 1, "source")], False)
    d = DER + P("vis", "vis", "pub") + " enum " + P("type", "ident", n["ty"]) + f"<{lt}, {tp}, const {cp}: ::core::primitive::usize> " + " { " + ", ".join([v1, v2, v3, v4]) + " }"
    t = n["ty"]
    g = f"{t}<'static, {LEAF % 0}, 2>"
    obs = [("0", f"{t}::{n['v1']} {{ {n['f1']}: \"x\", {n['f2']}: crate::sup::leaf::<0>(false) }}"), ("1", f"{t}::{n['v2']}([1, 2])"),
           ("2", f"{t}::{n['v3']}(crate::sup::leaf::<0>(false))"), ("3", f"{t}::W4(crate::sup::leaf::<1>(false))")]
    return d, [(k, f"crate::sup::id::<{g}>({e})") for k, e in obs], {
        "0": ("x leaf0", "", False), "1": ("[1, 2]", "", False), "2": ("leaf0", "", False), "3": ("s", "leaf1;", False)}, [g]


def t_fmt(n, P):
    fn = n["fn"]
    pre = (f"pub fn {fn}<A: ::core::fmt::Display, B: ::core::fmt::Debug>(__a: &A, __b: &B, __f: &mut ::core::fmt::Formatter) -> {RESULT} {{ ::core::fmt::Formatter::write_fmt(__f, ::core::format_args!(\"{{}}-{{:?}}\", __a, __b)) }} ")
    v1 = f"#[error(fmt = {P('path', 'path', fn)})] " + P("variant", "ident", n["v1"]) + body(P, [field(P, n, n["f1"], U8), field(P, n, n["f2"], STR)])
    v2 = f"#[error(fmt = {P('path', 'path', 'self::' + fn)})] " + P("variant", "ident", n["v2"]) + body(P, [field(P, n, "", STR), field(P, n, "", U8)], False)
    d = DER + P("vis", "vis", "pub") + " enum " + P("type", "ident", n["ty"]) + " { " + v1 + ", " + v2 + " }"
    t = n["ty"]
    return (d, pre), [("0", f"{t}::{n['v1']} {{ {n['f1']}: 3, {n['f2']}: crate::sup::string(\"q\") }}"), ("1", f"{t}::{n['v2']}(crate::sup::string(\"q\"), 3)")], {
        "0": ('3-"q"', "", False), "1": ("q-3", "", False)}, [t]


def t_path(n, P):
    d = (DER + msg(P, "{%s}{%s}{%s:?}" % (n["uf1"], n["uf2"], n["uf2"])) + P("vis", "vis", "pub") + " struct " + P("type", "ident", n["ty"])
         + body(P, [field(P, n, n["f1"], "::std::path::PathBuf"), field(P, n, n["f2"], "&'static ::std::path::Path")]))
    return d, [("0", f"{n['ty']} {{ {n['f1']}: crate::sup::pathbuf(\"/x\"), {n['f2']}: ::std::path::Path::new(\"y\") }}")], {"0": ('/xy"y"', "", False)}, [n["ty"]]


def t_pointer(n, P):
    lt = P("life", "lifetime", n["lt"])
    d = (DER + msg(P, "{%s:p}{%s:>2}{}" % (n["uf1"], n["uf2"]), P("arg", "tt", f"*{ref(P, n['f2'])} + 1")) + P("vis", "vis", "pub") + " struct " + P("type", "ident", n["ty"]) + f"<{lt}> "
         + body(P, [field(P, n, n["f1"], f"&{n['lt']} {U8}"), field(P, n, n["f2"], U8)]))
    return d, [("p0", f"{n['ty']} {{ {n['f1']}: &X, {n['f2']}: 4 }}")], {"p0": "as written"}, [n["ty"] + "<'static>"]


def t_traced(n, P):
    lt, tp = P("life", "lifetime", n["lt"]), P("param", "ident", n["tp"])
    d = (DER + msg(P, "s{%s}{source:?}" % n["uf1"]) + P("vis", "vis", "pub") + " struct " + P("type", "ident", n["ty"]) + f"<{lt}, {tp}> where {n['tp']}: ::core::fmt::Display "
         + body(P, [field(P, n, "source", f"{OPT}<{LEAF % 0}>"), field(P, n, n["f1"], f"&{n['lt']} {n['tp']}"), field(P, n, n["f2"], BT, "backtrace")]))
    t = n["ty"]
    g = f"{t}<'static, {LEAF % 3}>"
    out = [(str(k), f"crate::sup::id::<{g}>({t} {{ source: {s}, {n['f1']}: ::std::boxed::Box::leak(::std::boxed::Box::new(crate::sup::leaf::<3>(false))), {n['f2']}: crate::sup::bt() }})") for k, s in
           enumerate([f"{OPT}::None", f"{OPT}::Some(crate::sup::leaf::<0>(false))"])]
    return d, out, {"0": ("sleaf3None", "", True), "1": ("sleaf3Some(dbg-leaf0)", "leaf0;", True)}, [g]


def t_traceds(n, P):
    lt, tp = P("life", "lifetime", n["lt"]), P("param", "ident", n["tp"])
    v1 = msg(P, "{%s:?}" % n["uf1"]) + P("variant", "ident", n["v1"]) + body(P, [field(P, n, n["f1"], f"&{n['lt']} {U8}"), field(P, n, n["f2"], f"{OPT}<{LEAF % 0}>", "source"), field(P, n, "backtrace", f"{OPT}<{BT}>", "backtrace")])
    v2 = msg(P, "w{source:>6}") + "W2" + body(P, [field(P, n, "source", LEAF % 1, "from"), field(P, n, "backtrace", BT)])
    v3 = msg(P, "m{0}") + "W3" + body(P, [field(P, n, "", n["tp"]), field(P, n, "", BT)], False)
    d = DER + P("vis", "vis", "pub") + " enum " + P("type", "ident", n["ty"]) + f"<{lt}, {tp}> {{ " + v1 + ", " + v2 + ", " + v3 + " }"
    t = n["ty"]
    g = f"{t}<'static, {LEAF % 3}>"
    obs = [("0", f"{t}::{n['v1']} {{ {n['f1']}: &5, {n['f2']}: {OPT}::Some(crate::sup::leaf::<0>(false)), backtrace: {OPT}::Some(crate::sup::bt()) }}"),
           ("1", f"{t}::W2 {{ source: crate::sup::leaf::<1>(false), backtrace: crate::sup::bt() }}"),
           ("2", f"{t}::W3(crate::sup::leaf::<3>(false), crate::sup::bt())")]
    return d, [(k, f"crate::sup::id::<{g}>({e})") for k, e in obs] + [("f3", f"FROM {g} crate::sup::leaf::<1>(false)")], {
        "0": ("5", "leaf0;", True), "1": ("wleaf1", "leaf1;", True), "2": ("mleaf3", "", True), "f3": ("wleaf1", "leaf1;", True)}, [g]


def t_empty(n, P):
    d = DER + ("#[error(\"x{}\", 1)] " if P.v % 3 == 0 else "") + P("vis", "vis", "pub") + " enum " + P("type", "ident", n["ty"]) + " {}"
    return d, [], {}, [n["ty"]]


TEMPLATES = {k[2:]: f for k, f in globals().items() if k.startswith("t_")}


def item(k, it):
    kind, nm = it["kind"], it["name"]
    r = "r#" + nm if nm in KEYWORDS else nm
    if kind == "struct":
        return f"pub struct {r} {{}}"
    if kind == "unit":
        return f"pub struct {r};"
    if kind == "tuplestruct":
        return f"pub struct {r}(pub ::core::primitive::u8);"
    if kind == "trait":
        return f"pub trait {r} {{ fn fmt(&self); fn source(&self) -> ::core::primitive::u8; }}"
    if kind == "mod":
        return f"pub mod {r} {{ pub mod fmt {{ pub struct Formatter; pub trait Display {{}} pub struct Result; }} pub mod error {{ pub trait Error {{}} }} pub mod __private {{}} }}"
    if kind == "alias":
        return f"pub type {r} = ();"
    if kind == "enum":
        return f"pub enum {r} {{ Some, None, Ok, Err }}"
    if kind == "union":
        return f"pub union {r} {{ x: () }}"
    if kind == "use":
        return f"pub use crate::sup::Thing as {r};" if k % 2 else f"pub use crate::sup::thing as {r};"
    if kind == "glob":
        return f"mod glob_{k} {{ pub struct {r} {{}} }} pub use self::glob_{k}::*;"
    if kind == "globfn":
        return f"mod glob_{k} {{ pub fn {r}() {{}} }} pub use self::glob_{k}::*;"
    if kind == "fn":
        return f"pub fn {r}() {{}}"
    if kind in ("const", "static"):
        return f"pub {kind} {r}: ::core::primitive::u8 = 9;"
    if kind == "macro":
        return f"macro_rules! {nm} {{ ($($t:tt)*) => {{ ::core::compile_error!(\"hijacked\") }} }}"
    recv = {"method": "&self", "methodval": "self", "methodmut": "&mut self"}[kind]
    if kind == "methodval":
        return f"pub trait Hostile_{k} : ::core::marker::Sized {{ fn {nm}(self) -> ::core::primitive::i128 {{ 99 }} }} impl<T> Hostile_{k} for T {{}}"
    return f"pub trait Hostile_{k} {{ fn {nm}({recv}) -> ::core::primitive::i128 {{ 99 }} }} impl<T: ?::core::marker::Sized> Hostile_{k} for T {{}}"


def render(i, x, v):
    n = Names(x)
    P = Pieces(x["place"] or {}, v)
    d, obs, want, tys = TEMPLATES[x["tmpl"]](n, P)
    pre = ""
    if isinstance(d, tuple):
        d, pre = d
    decl = P.wrap(d, pre)
    items = sorted(x["items"], key=lambda z: (z["kind"], z["name"]))
    text = " ".join(item(k, z) for k, z in enumerate(items))
    macros = " ".join(item(k, z) for k, z in enumerate(items) if z["kind"] == "macro")
    others = " ".join(item(k, z) for k, z in enumerate(items) if z["kind"] != "macro")
    run = []
    expect = {}
    for k, e in obs:
        if e.startswith("FROM "):
            t, val = e[5:].rsplit(" ", 1)
            run.append(f"crate::sup::from::<{t}, _>(o, \"{k}\", {val});")
        elif k == "p0":
            run.append(f"{{ static X: {U8} = 6; let w = ::std::format!(\"{{:p}} 45\", &X); crate::sup::pointer(o, \"p0\", &{e}, &w); }}")
        else:
            run.append(f"crate::sup::look(o, \"{k}\", &{e});")
        if k == "p0":
            expect["p0.text"] = want[k]
        else:
            expect[f"{k}.text"], expect[f"{k}.chain"], b = want[k]
            expect[f"{k}.bt"] = "true" if b else "false"
    if not obs:
        run.append(f"{{ fn need<T: ::std::error::Error>() {{}} need::<{tys[0]}>(); }}")
    attr = "" if x["prelude"] else "#[no_implicit_prelude] "
    src = f"{attr}mod {i} {{ {macros} {decl} {others} pub fn run_it(o: &mut ::support::Out) {{ {' '.join(run)} }} }}"
    return Case(i, src, f"{i}::run_it(o)", expect, dict(tmpl=x["tmpl"], names=x["names"], items=items, place=x["place"], edition=x["edition"], prelude=x["prelude"], declaration=decl))


# Each listed finding: a scope that reaches generated code; see known_findings.txt.
def hazards(c, run_cases):
    pass


EXTRA_TRAITS = ["::core::clone::Clone", "::core::marker::Copy", "::core::cmp::PartialEq", "::core::cmp::PartialOrd", "::core::hash::Hash", "::core::default::Default", "::core::ops::Deref",
                "::core::ops::Drop", "::core::convert::AsRef<str>", "::core::iter::Iterator", "::core::convert::From<()>", "::core::convert::From<u8>", "::core::convert::From<::std::string::String>",
                "::core::convert::From<&'static str>", "::core::convert::From<crate::sup::Leaf<2>>", "::core::convert::From<::std::backtrace::Backtrace>", "::core::str::FromStr",
                "::std::convert::AsRef<dyn ::std::error::Error>", "::std::borrow::Borrow<dyn ::std::error::Error>", "::core::fmt::LowerHex", "::core::fmt::Write", "::core::ops::Fn()", "::thiserror::Error"]
EXTRA_TRAITS = EXTRA_TRAITS[:-1]
HAS = {"Display": "::core::fmt::Display", "Error": "::std::error::Error"}


def extra(i, tmpl, v):
    """No implementations beyond the expected ones, in a plain scope."""
    x = dict(tmpl=tmpl, names={}, items=[], place={}, edition="2021", prelude=True)
    base = render(i, x, v)
    n = Names(x)
    tys = TEMPLATES[tmpl](n, Pieces({}, v))[3]
    froms = {"from": [0, 1], "optfrom": [0], "transenum": [0], "traceds": [1]}.get(tmpl, [])
    probes = [(t, "false") for t in EXTRA_TRAITS] + [(f"::core::convert::From<crate::sup::Leaf<{k}>>", "true" if k in froms else "false") for k in (0, 1)] + [(t, "true") for t in HAS.values()]
    probes = [p for p in probes if not (tmpl == "optfrom" and "Option" in p[0])]
    body = " ".join(f"o.put({rust_str(p)}, ::support::impls!({tys[0]}: {p}));" for p, w in probes)
    src = base.src[:base.src.rindex("}")] + f" pub fn probes(o: &mut ::support::Out) {{ {body} }} }}"
    return Case(i, src, f"{i}::run_it(o); {i}::probes(o)", dict(base.expect, **dict(probes)), base.info)


HAZ = {  # key -> (state)
    "binding:const": dict(tmpl="named", names={}, items=[dict(kind="const", name="a")]),
    "binding:static": dict(tmpl="sources", names={}, items=[dict(kind="static", name="source")]),
    "binding:unit": dict(tmpl="from", names={}, items=[dict(kind="unit", name="source")]),
    "binding:prelude": dict(tmpl="named", names={"f1": "None"}, items=[]),
    "binding:constparam": dict(tmpl="generics", names={"cp": "source"}, items=[]),
    "binding:request": dict(tmpl="source", names={}, items=[dict(kind="tuplestruct", name="request")]),
    "constarg": dict(tmpl="generics", names={"cp": "M"}, items=[dict(kind="struct", name="M")]),
    "method:as_display": dict(tmpl="named", names={}, items=[dict(kind="methodval", name="as_display")]),
    "method:as_dyn_error": dict(tmpl="from", names={}, items=[dict(kind="method", name="as_dyn_error")]),
    "method:thiserror_provide": dict(tmpl="from", names={}, items=[dict(kind="method", name="thiserror_provide")]),
    "method:as_ref": dict(tmpl="source", names={}, items=[dict(kind="methodval", name="as_ref")]),
}


def check(c):
    q = c.tier == "quick"
    inv = ["Faithful", "HazardsReal", "OnlyValuesAndMethods"]
    base = dict(Hygiene="fixed", Avoid=False)
    one = c.tlc("Scope", dict(base, MaxSteps=1), invariants=inv, tag="one").cases
    many = c.tlc("Scope", dict(base, MaxSteps=40, Avoid=True), invariants=inv, tag="many", simulate=140 if q else 3000, depth=43, timeout=1200).cases
    # the hygiene of the generated names is necessary, not only sufficient
    if not c.tlc("Scope", dict(base, MaxSteps=1, Hygiene="old"), invariants=["Faithful"], tag="old", emit=False, allow_violation=True).violation:
        raise ToolError("the specification does not distinguish names resolved at the wrong context")
    ok = [x for x in one if not x["hazards"]]
    long = [x for x in many if not x["hazards"] and x["step"] >= 3]
    strata = {}
    for x in ok:
        if x["items"]:
            it = x["items"][0]
            strata.setdefault(("item", it["kind"], it["name"]), []).append(x)
            strata.setdefault(("item", x["tmpl"], it["kind"]), []).append(x)
            if it["kind"] in ("macro", "method", "methodval", "methodmut", "fn"):
                strata.setdefault(("item", x["tmpl"], it["kind"], it["name"]), []).append(x)
        elif x["names"]:
            (s, nm), = x["names"].items()
            strata.setdefault(("name", x["tmpl"], s, nm), []).append(x)
        else:
            strata.setdefault(("other", x["tmpl"], json.dumps(x["place"], sort_keys=True), x["edition"], x["prelude"]), []).append(x)
    pick = []
    seen = set()
    for k in sorted(strata, key=str):
        if q and k[0] == "item" and len(k) == 4 and c.rng.random() < 0.75:
            continue
        if q and k[0] == "name" and c.rng.random() < 0.3:
            continue
        for x in c.rng.sample(strata[k], 1 if q else min(3, len(strata[k]))):
            key = json.dumps([x[z] for z in ("tmpl", "names", "items", "place", "edition", "prelude")], sort_keys=True)
            if key not in seen:
                seen.add(key)
                pick.append(x)
    pick += c.rng.sample(long, min(len(long), 700 if q else 9000))
    groups = {}
    for x in pick:
        i = f"c{sum(len(g) for g in groups.values())}"
        groups.setdefault(x["edition"], []).append(render(i, x, declr.h(c.seed, json.dumps(x, sort_keys=True))))
    for t in TEMPLATES:
        groups["2021"].append(extra("x_" + t, t, 1))
    c.extra["declarations_by_edition"] = {e: len(g) for e, g in groups.items()}
    head = "#![feature(error_generic_member_access)]\n#![allow(warnings)]\n"
    run_head = HEADER + "pub fn usize_of(x: u8) -> usize { x as usize }\n"

    def go(e):
        run = RustRun(c, "scope" + e, header=("extern crate core; extern crate support; extern crate thiserror;\n" if e == "2015" else "") + run_head, crate_attrs=head, edition=e, shards=max(1, min(8, len(groups[e]) // 120 + 1)))
        bad = []
        res, failing = run.run(groups[e], on_compile_fail=lambda k, m: bad.append((k, m)), max_rounds=6)
        return e, res, failing, bad
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(go, sorted(groups)))
    for e, res, failing, bad in outs:
        for k, m in bad:
            c.validated += 1
            c.violation(key_of(k.info), "does not compile in this scope", dict(info=k.info, error=m, src=k.src))
        compare(c, groups[e], res, failing, keyf=lambda k, _: key_of(k.info))
    for g in groups.values():
        c.sample(c.rng.choice(g).info)
    # collisions that do reach generated code
    found = {}
    cases = []
    for key, st in HAZ.items():
        x = dict(dict(place={}, edition="2021", prelude=True), **st)
        cases.append(render("h_" + key.replace(":", "_"), x, 2))
    run = RustRun(c, "hazards", header=run_head, crate_attrs=head, shards=1)
    bad = {}
    res, failing = run.run(cases, on_compile_fail=lambda k, m: bad.setdefault(k.id, m), max_rounds=12)
    for key, k in zip(HAZ, cases):
        got = res.get(k.id, {})
        if k.id in bad:
            c.violation(key, "does not compile in this scope", dict(info=k.info, error=bad[k.id]))
        elif any(got.get(z) != w for z, w in k.expect.items()):
            c.violation(key, "means something else in this scope", dict(info=k.info, got=got))
        c.validated += 1


def key_of(i):
    return json.dumps([i["tmpl"], i["names"] or {}, [f"{z['kind']} {z['name']}" for z in i["items"]], i["place"] or {}, i["edition"], i["prelude"]], sort_keys=True).replace(" ", "_")


if __name__ == "__main__":
    main(check, "C13")
