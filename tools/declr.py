"""Rendering of declarations of module Decl."""
import hashlib
import re


def h(*a):
    return int(hashlib.sha1("/".join(map(str, a)).encode()).hexdigest()[:8], 16)


TYPES = {
    "E": "E", "F": "F", "OptE": "Option<E>", "OptF": "Option<F>", "RefA": "&'a E", "RefStaticE": "&'static E",
    "OptRefA": "Option<&'a E>", "WA": "W<'a>", "WStatic": "W<'static>", "BoxWA": "Box<W<'a>>", "PathWA": "m::W<'a>",
    "Bt": "Backtrace", "PathBt": "::std::backtrace::Backtrace", "BtArgs": "Backtrace<u8>", "OptBt": "Option<Backtrace>",
    "MacroE": "__NONE__(E)", "MacroRefA": "__NONE__(&'a E)", "MacroBt": "__NONE__(Backtrace)",
    "OptMacroE": "__NONE__(Option<__NONE__(E)>)", "BoxMacroWA": "Box<__NONE__(W<'a>)>", "StdOptE": "::std::option::Option<E>",
    "BtErr": "own::Backtrace", "AliasBt": "alias::Backtrace<0>", "OptTwo": "alias::Option<u8, F>", "QBt": "<E as Names>::Backtrace", "QOptE": "<u8 as Names>::Option<E>",
    "Int": "i32", "Str": "String", "T": "T", "OptT": "Option<T>", "BoxDyn": "Box<dyn std::error::Error>",
    "BoxDynSync": "Box<dyn std::error::Error + Send + Sync>", "BoxSyncUnwind": "Box<dyn std::error::Error + Send + Sync + std::panic::UnwindSafe>",
    "OptBox": "Option<Box<dyn std::error::Error>>", "BoxSend": "Box<dyn std::error::Error + Send>", "OptBoxSend": "Option<Box<dyn std::error::Error + Send>>", "OptBoxE": "Option<Box<E>>", "OptArcE": "Option<std::sync::Arc<E>>",
    "ArcDyn": "std::sync::Arc<dyn std::error::Error + Send + Sync>", "RefDyn": "&'static (dyn std::error::Error + 'static)",
    "BoxE": "Box<E>", "ArcE": "std::sync::Arc<E>", "ArcBt": "std::sync::Arc<Backtrace>", "MyBt": "MyBt", "OptArcBt": "Option<std::sync::Arc<Backtrace>>",
}
MALFORMED_ERROR = ["#[error()]", "#[error]", '#[error = "x"]', "#[error(42)]", '#[error(transparent "x")]', "#[error(fmt)]",
                   "#[error(fmt = )]", "#[error(Transparent)]", "#[error(transparent, )]", '#[error(fmt = a::b, "x")]', "#[error(b\"x\")]", "#[error('x')]", "#[error(source)]"]
MALFORMED_SOURCE = ["#[source(x)]", '#[source = "x"]', "#[source()]", "#[source[E]]"]
MALFORMED_BT = ["#[backtrace(x)]", "#[backtrace = 1]", "#[backtrace()]"]
FOREIGN_FROM = ["#[from(x)]", "#[from()]", "#[from(types(a, b))]", '#[from = "x"]', "#[from(skip)]"]
OTHERS = ["#[doc = \"x\"]", "#[allow(dead_code)]", "#[cfg_attr(any(), error)]", "/// doc\n"]
# `#[error(transparent, )]` leaves a token behind and is malformed as well.


def attr(a, v, msg="m"):
    if a == "msg":
        return f'#[error("{msg}")]'
    if a == "msgpos":
        return ['#[error("{0} {}", 1)]', '#[error("{} {0:?}", 1 + 1, name = 2)]', '#[error("{name}{}{0}", name = "n", "x")]'][v % 3]
    if a == "transparent":
        return "#[error(transparent)]"
    if a == "fmt":
        return ["#[error(fmt = f)]", "#[error(fmt = crate::a::f)]", "#[error(fmt = <X as Y>::f)]"][v % 3]
    if a in ("from", "source", "backtrace"):
        return f"#[{a}]"
    if a == "from()":
        return FOREIGN_FROM[v % len(FOREIGN_FROM)]
    if a == "source()":
        return MALFORMED_SOURCE[v % len(MALFORMED_SOURCE)]
    if a == "backtrace()":
        return MALFORMED_BT[v % len(MALFORMED_BT)]
    if a == "error()":
        return MALFORMED_ERROR[v % len(MALFORMED_ERROR)]
    if a == "other":
        return OTHERS[v % len(OTHERS)]
    raise ValueError(a)


def attrs(at, v, msg="m"):
    return " ".join(attr(a, v // (k + 1), msg) for k, a in enumerate(at))


# The same type by another path: what counts is the last segment.
PATHS = {"Option": ["", "", "", "std::option::", "::std::option::", "core::option::", "::core::option::", "crate::spelt::", "super::spelt::option::"],
         "Box": ["", "", "", "std::boxed::", "::std::boxed::", "crate::spelt::"],
         "Backtrace": ["", "", "", "std::backtrace::", "::std::backtrace::", "crate::spelt::", "super::spelt::option::"]}


def spelt(ty, v):
    return re.sub(r"(?<![\w:])(Option(?=<)|Box(?=<)|Backtrace\b(?!<))", lambda m: PATHS[m[1]][h(v, ty, m.start()) % len(PATHS[m[1]])] + m[1], ty)


def fields(fs, style, v, types=TYPES):
    if style == "unit":
        return ""
    parts = []
    for k, f in enumerate(fs):
        nm = f"{f['nm']}: " if style == "named" else ""
        parts.append(f"{attrs(f['at'], v + k)} {nm}{spelt(types[f['ty']], v + k)}")
    b = ", ".join(parts)
    return "{ %s }" % b if style == "named" else "(%s)" % b


def decl(d, v=0, types=TYPES, name="S", derive="", params=None, where=""):
    alltys = [f["ty"] for x in d["vs"] for f in x["fs"]]
    text = [types[t] for t in alltys]
    gens = []
    if any("'a" in t for t in text):
        gens.append("'a")
    if any(t in ("T", "OptT") for t in alltys):
        gens.append("T")
    gens = gens if params is None else params
    g = "<" + ", ".join(gens) + ">" if gens else ""
    head = derive + attrs(d["at"], v)
    if d["kind"] in ("struct", "union"):
        if not d["vs"]:
            return f"{head} {d['kind']} {name}{g} {{}}"
        x = d["vs"][0]
        body = fields(x["fs"], x["style"], v, types)
        return f"{head} pub {d['kind']} {name}{g} " + (f"{where} {body}" if x["style"] == "named" else f"{body} {where};")
    vs = []
    for k, x in enumerate(d["vs"]):
        vs.append(f"{attrs(x['at'], v + k)} V{k + 1} {fields(x['fs'], x['style'], v, types)}")
    return f"{head} pub enum {name}{g} {where} {{ {', '.join(vs)} }}"


# Texts of diagnostics, by the rule they name.
RULE_TEXT = {
    "dup-msg": "only one #[error(...)] attribute is allowed",
    "dup-transparent": "duplicate #[error(transparent)]",
    "dup-fmt": "duplicate #[error(fmt = ...)]",
    "dup-source": "duplicate #[source]",
    "dup-from": "duplicate #[from]",
    "dup-backtrace": "duplicate #[backtrace]",
    "outer-from": "not expected here; the #[from] attribute belongs on a specific field",
    "outer-source": "not expected here; the #[source] attribute belongs on a specific field",
    "outer-backtrace": "not expected here; the #[backtrace] attribute belongs on a specific field",
    "transparent-msg": "cannot have both #[error(transparent)] and a display attribute",
    "transparent-fmt": "cannot have both #[error(transparent)] and #[error(fmt",
    "msg-fmt": "cannot have both #[error(fmt = ...)] and a format arguments",
    "transparent-fields": "#[error(transparent)] requires exactly one field",
    "transparent-source": "can't contain #[source]",
    "ambiguous": "ambiguous reference to positional arguments",
    "field-display": "not expected here; the #[error(...)] attribute belongs on top",
    "field-transparent": "#[error(transparent)] needs to go outside",
    "from-not-source": "#[from] is only supported on the source field",
    "from-other-field": "deriving From requires no fields other than source and backtrace",
    "lifetime": "non-static lifetimes are not allowed in the source",
    "union": "union as errors are not supported",
    "missing-text": "missing #[error(\"...\")] display attribute",
    "struct-fmt": "#[error(fmt = ...)] is only supported in enums",
}


def rule_of(msg):
    for r, t in RULE_TEXT.items():
        if t in msg:
            return r
    return None
