"""C15: one corpus in every build configuration."""
from vlib import *
import itertools
import declr

HEADER = """
use thiserror::Error;
pub use support::s as st;
use st::string::{String, ToString};
use st::boxed::Box;
use st::error::Error as StdError;
use st::backtrace::Backtrace;
use st::path::{Path, PathBuf};
use st::sync::Arc;
use st::borrow::Cow;
use st::fmt;
use st::os::unix::ffi::OsStrExt as _;
pub struct E { pub id: u32, pub bt: Option<Backtrace> }
impl fmt::Debug for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("dbgE") } }
impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.pad("leaf") } }
#[derive(Clone, Copy, PartialEq)] pub struct Tag(pub u32);
impl StdError for E { PROVIDE }
pub fn e(id: u32, bt: bool) -> E { E { id: id, bt: if bt { Some(Backtrace::disabled()) } else { None } } }
#[derive(Debug)] pub struct Derefs(pub PathBuf); impl st::ops::Deref for Derefs { type Target = Path; fn deref(&self) -> &Path { &self.0 } }
#[derive(Debug)] pub struct Both(pub PathBuf); impl st::ops::Deref for Both { type Target = Path; fn deref(&self) -> &Path { &self.0 } }
impl fmt::Display for Both { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.pad("both") } }
pub fn path(utf8: bool) -> &'static Path { Path::new(st::ffi::OsStr::from_bytes(if utf8 { b"p-q" } else { b"p\\xffq" })) }
pub struct Pt { pub k: i32 }
pub fn add<A: st::convert::Into<i32>, B: st::convert::Into<i32>>(a: A, b: B) -> i32 { a.into() + b.into() }
pub fn fmt0(f: &mut fmt::Formatter) -> fmt::Result { f.write_str("fmt") }
pub fn fmt1<A>(_: &A, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("fmt") }
pub fn fmt2<A, B>(_: &A, _: &B, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("fmt") }
pub fn fmt3<A, B, C>(_: &A, _: &B, _: &C, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("fmt") }
pub fn same(a: &dyn StdError, b: *const u8) -> bool { a as *const dyn StdError as *const u8 == b }
/// Which field a source is.
pub fn at(s: Option<&(dyn StdError + 'static)>) -> String { match s { None => "none".to_string(), Some(s) => match s.downcast_ref::<E>() { Some(e) => e.id.to_string(), None => match s.downcast_ref::<Box<E>>() { Some(e) => e.id.to_string(), None => "?".to_string() } } } }
pub trait Kept { fn kept(&self) -> &'static str; }
impl Kept for Backtrace { fn kept(&self) -> &'static str { if self.status() == st::backtrace::BacktraceStatus::Captured { "captured" } else { "other" } } }
impl<T: Kept> Kept for Option<T> { fn kept(&self) -> &'static str { match *self { None => "None", Some(ref t) => t.kept() } } }
impl Kept for E { fn kept(&self) -> &'static str { if self.id == 77 { "given" } else { "?" } } }
impl Kept for Box<E> { fn kept(&self) -> &'static str { (**self).kept() } }
impl Kept for Box<dyn StdError + Send> { fn kept(&self) -> &'static str { match (**self).downcast_ref::<E>() { Some(e) => e.kept(), None => "?" } } }
impl Kept for Box<dyn StdError + Send + Sync> { fn kept(&self) -> &'static str { match (**self).downcast_ref::<E>() { Some(e) => e.kept(), None => "?" } } }
impl Kept for Box<dyn StdError + Send + Sync + st::panic::UnwindSafe> { fn kept(&self) -> &'static str { let d: &(dyn StdError + 'static) = &**self; match d.downcast_ref::<E>() { Some(e) => e.kept(), None => "?" } } }
impl Kept for Box<dyn StdError> { fn kept(&self) -> &'static str { match (**self).downcast_ref::<E>() { Some(e) => e.kept(), None => "?" } } }
macro_rules! look { ($o:ident, $k:expr, $v:ident) => {{ $o.put(&(st::string::String::from($k) + ".source"), at(StdError::source(&$v))); LOOK }} }
"""
PROVIDE = "fn provide<'a>(&'a self, r: &mut st::error::Request<'a>) { r.provide_value(Tag(self.id)); if let Some(ref b) = self.bt { r.provide_ref::<Backtrace>(b); } }"
LOOK = ("$o.put(&(st::string::String::from($k) + \".bt\"), st::error::request_ref::<Backtrace>(&$v).is_some()); "
        "$o.put(&(st::string::String::from($k) + \".tag\"), match st::error::request_value::<Tag>(&$v) { None => 0, Some(t) => t.0 });")
TYPES = {"Int": "i32", "Str": "&'static str", "E": "E", "OptE": "Option<E>", "BoxDyn": "Box<dyn StdError>", "BoxE": "Box<E>", "BoxSend": "Box<dyn StdError + Send>", "BoxDynSync": "Box<dyn StdError + Send + Sync>",
         "BoxSyncUnwind": "Box<dyn StdError + Send + Sync + st::panic::UnwindSafe>", "Bt": "Backtrace", "OptBt": "Option<Backtrace>",
         "Path": "PathBuf", "PathRef": "&'static Path", "BoxPath": "Box<Path>", "ArcPath": "Arc<Path>", "CowPath": "Cow<'static, Path>", "Derefs": "Derefs", "Both": "Both"}
DBG = {"Int": "7", "Str": '"st"', "E": "dbgE"}
EXPR = {"e1": "{a} + 1", "e2": "if {a}.abs() > 3 {{ {a}.abs() }} else {{ 0 }}", "e3": "match {a}.abs() {{ 7 => 1, _ => 2 }}", "e4": "{{ let y = {a}.abs(); y * 2 }}", "e5": "[{a}.abs(), 1][0]",
        "e6": "(|k: i32| k * {a}.abs())(3)", "e7": "<i32 as st::convert::From<i32>>::from({a}.abs())", "e8": "{a}.abs() < 9 && {a}.abs() >= 7", "e9": "({a}.abs(), 2).0 + 2",
        "e10": "Pt {{ k: {a}.abs() }}.k", "e11": "loop {{ break {a}.abs() }}", "e12": "-{a}.abs()", "e13": "{a}.pow(2)", "e14": "unsafe {{ {a}.abs() }}",
        "e15": "add::<i32, i32>({a}.abs(), 3)", "e16": "*&{a}.abs()", "e17": "(1..={a}.abs()).skip(2).count()", "e18": "{a}.abs() as i64 * 2",
        "u1": "1u8..9", "u2": "{a}.abs()", "u3": "1..={a}.abs()", "u4": "{a}.abs() as i64", "u5": "..",
        "e19": "st::mem::size_of::<[u8; 7]>() as i32 * {a}.abs() / 7", "e20": "1 + 1"}


def message(v, names):
    out, pos, named = [], [], []

    def arg(e, spec=""):
        if v["style"] == "tuple" or named:
            n = f"z{len(named)}"
            named.append(f"{n} = {e}")
            return "{%s%s}" % (n, spec)
        pos.append(e)
        return "{%s}" % spec
    for f, n in zip(v["fs"], names):
        s = f["show"]
        if s == "no":
            continue
        if s[0] == "u":
            pos.append(EXPR[s].format(a="." + n))
            out.append("{}" if s in ("u2", "u4") else "{:?}")
            continue
        out.append({"plain": "{%s}" % n, "dbg": "{%s:?}" % n, "pad": "{%s:>12}" % n, "ptr": "{%s:p}" % n}.get(s) or
                   (arg("." + n) if s == "arg" else arg("." + n, ":?") if s == "argdbg" else arg(f".{n}.display()") if s == "lossy" else
                    None if s == "named" else arg(EXPR[s].format(a="." + n))))
        if s == "named":
            named.append(f"z{len(named)} = .{n}")
            out[-1] = "{z%d}" % (len(named) - 1)
    # whatever a placeholder shows it shows again
    out += [z for z in out if z[1] not in ":}" and not re.match(r"\{z\d", z)]
    return "#[error(" + ", ".join([rust_str(" ".join(["m"] + out)), *pos, *named]) + ")] "


def value(f, val, i):
    u = "true" if f["show"] == "pad" else "false"
    p = f"path({u})"
    ev = f"e({i}, {'true' if val in ('Bt', 'SomeBt') else 'false'})"
    t = f["ty"]
    if val == "None":
        return "None"
    return {"Int": "7", "Str": '"st"', "E": ev, "OptE": f"Some({ev})", "BoxDyn": f"Box::<E>::new({ev})", "BoxE": f"Box::new({ev})", "BoxSend": f"Box::<E>::new({ev})", "BoxDynSync": f"Box::<E>::new({ev})", "BoxSyncUnwind": f"Box::<E>::new({ev})", "Bt": "Backtrace::disabled()",
            "OptBt": "Some(Backtrace::disabled())", "Path": f"{p}.to_path_buf()", "PathRef": p, "BoxPath": f"Box::from({p})", "ArcPath": f"Arc::from({p})",
            "CowPath": f"Cow::from({p})", "Derefs": f"Derefs({p}.to_path_buf())", "Both": f"Both({p}.to_path_buf())"}[t]


def names_of(v):
    return [f["nm"] if v["style"] == "named" else str(j) for j, f in enumerate(v["fs"])]


def attrs(at, v):
    out = ""
    for a in at:
        out += (message(v, names_of(v)) if v else '#[error("m")] ') if a == "msg" else f"#[error(fmt = fmt{len(v['fs'])})] " if a == "fmt" else declr.attr(a, 0) + " "
    return out


def body(v, vis):
    b = ", ".join(attrs(f["at"], None) + vis + (f["nm"] + ": " if v["style"] == "named" else "") + TYPES[f["ty"]] for f in v["fs"])
    return "{ %s }" % b if v["style"] == "named" else "(%s)" % b if v["style"] == "tuple" else ""


def case(i, x):
    d = x["d"]
    enum = d["kind"] == "enum"
    if enum:
        vs = ", ".join(attrs(v["at"], v) + f"V{k} " + body(v, "") for k, v in enumerate(d["vs"]))
        text = f"{attrs(d['at'], None)}pub enum S {{ {vs} }}"
    else:
        v = d["vs"][0]
        text = f"{attrs(d['at'], v)}pub struct S {body(v, 'pub ')}{';' if v['style'] == 'tuple' else ''}"
    text = "#[derive(Error, Debug)] " + text
    if not x["display"]:
        text += ' impl fmt::Display for S { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("hand") } }'
    run, expect = [], {}
    n = 0
    for k, (v, looks) in enumerate(zip(d["vs"], x["looks"])):
        path = f"S::V{k}" if enum else "S"
        for y in sorted(looks, key=lambda y: json.dumps(y, sort_keys=True))[:9]:
            vals = [value(f, z, j + 1) for j, (f, z) in enumerate(zip(v["fs"], y["vals"]))]
            ctor = path if v["style"] == "unit" else path + ("{ " + ", ".join(f"{a}: {b}" for a, b in zip(names_of(v), vals)) + " }" if v["style"] == "named" else "(" + ", ".join(vals) + ")")
            run.append(f'{{ let v = {ctor}; look!(o, "{n}", v); o.put("{n}.text", &v); o.put("{n}.alt", st::format!("{{:#}}", v)); }}')
            expect[f"{n}.source"] = str(y["source"][1]) if y["source"][0] == "field" else "none"
            expect[f"{n}.bt"] = "false" if y["bt"][0] == "none" else "true"
            expect[f"{n}.tag"] = str(y["tag"])
            t = y["text"]
            if t[0] == "none":
                s = "hand"
            elif t[0] == "inner":
                s = "leaf"
            elif t[0] == "fmt":
                s = "fmt"
            else:
                s, more = "m", ""
                for f, (how, raw) in zip(v["fs"], t[1:]):
                    raw = raw.replace("~", "-" if f["show"] == "pad" else "\ufffd")
                    if how == "dbg":
                        pd = '"p-q"' if f["show"] == "pad" else '"p\\xFFq"'
                        raw = DBG.get(f["ty"]) or (f"{f['ty']}({pd})" if f["ty"] in ("Derefs", "Both") else pd)
                    piece = "" if how == "no" else " " + (raw.rjust(12) if how == "pad" else "0xPTR" if how == "ptr" else raw)
                    s += piece
                    more += piece if f["show"] in ("plain", "dbg", "pad", "ptr") else ""
                s += more
            expect[f"{n}.text"] = expect[f"{n}.alt"] = s
            n += 1
    for fr in x["froms"]:
        v = d["vs"][fr["v"] - 1]
        path = f"S::V{fr['v'] - 1}" if enum else "S"
        inner = {"E": "e(77, false)", "BoxE": "Box::new(e(77, false))", }.get(fr["ty"], "Box::<E>::new(e(77, false))")
        t = TYPES[fr["ty"]]
        pat = ", ".join(f"{a}: ref f{j}" for j, a in enumerate(names_of(v)))
        kept = " + \" \" + ".join(f"Kept::kept(f{j})" for j in range(len(v["fs"]))).replace("Kept", "&st::string::String::from(Kept", 0)
        parts = " ".join(f"s.push_str(Kept::kept(f{j})); s.push(' ');" for j in range(len(v["fs"])))
        run.append(f"{{ let x: {t} = {inner}; let v: S = From::from(x); let mut s = String::new(); #[allow(irrefutable_let_patterns)] if let {path} {{ {pat} }} = v {{ {parts} }} "
                   f"o.put(\"from{fr['v']}\", s); }}")
        expect[f"from{fr['v']}"] = "".join("given " if j + 1 == fr["f"] else "captured " for j in range(len(v["fs"])))
    src = f"mod {i} {{ use super::*; {text}\n pub fn run(o: &mut support::Out) {{ {' '.join(run)} }} }}"
    return Case(i, src, f"{i}::run(o)", expect, dict(declaration=text, x=x))


class Build(RustRun):
    """One configuration."""

    def __init__(self, c, name, g):
        super().__init__(c, name, toolchain=NIGHTLY if g["compiler"] == "nightly" else STABLE, features_std=g["asks"], release=g["profile"] == "release", synfull=g["full"],
                         edition=g["edition"], run_env={"RUST_LIB_BACKTRACE": "1"}, extra_deps="" if g["other"] == "none" else 'other = { path = "other" }')
        self.g = g

    def write(self, cases, failing=()):
        g = self.g
        self.header = HEADER.replace("PROVIDE", PROVIDE if g["compiler"] == "nightly" else "").replace("LOOK", LOOK if g["compiler"] == "nightly" else "")
        live = super().write(cases, failing)
        if g["other"] != "none":
            d = os.path.join(self.dir, "other")
            os.makedirs(os.path.join(d, "src"), exist_ok=True)
            with open(os.path.join(d, "Cargo.toml"), "w") as f:
                f.write('[package]\nname = "other"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nthiserror = { path = "%s"%s }\n' % (REPO, "" if g["other"] == "std" else ", default-features = false"))
            with open(os.path.join(d, "src", "lib.rs"), "w") as f:
                f.write('#![no_std]\n#[derive(thiserror::Error, Debug)] #[error("other {0}")] pub struct Other(pub u8);\n')
        # crate attributes and the entry point
        top = "#![feature(error_generic_member_access)]\n" if g["compiler"] == "nightly" else ""
        if g["crate"] == "nostd":
            top += "#![no_std]\n#![no_main]\n"
        if g["edition"] == "2015":
            top += "extern crate thiserror; extern crate support;\n"
        top += "use thiserror as _;\n" if g["edition"] != "2015" else ""
        extra = top.count("\n")
        for s in range(self.nshards):
            p = os.path.join(self.dir, "src", "bin", f"s{s}.rs")
            text = open(p).read()
            lines = text.split("\n")
            allow = next(k for k, z in enumerate(lines) if z.startswith("#![allow("))
            inner, items = [z for z in top.split("\n") if z.startswith("#![")], [z for z in top.split("\n") if z and not z.startswith("#![")]
            lines[allow] += " " + " ".join(inner) + " " + " ".join(items)
            text = "\n".join(lines)
            if g["crate"] == "nostd":
                text = text.replace("fn main() { support::run_all(&[", "#[unsafe(no_mangle)] pub extern \"C\" fn main(_: i32, _: *const *const u8) -> i32 { support::run_all(&[").replace("\n]); }\n", "\n]); 0 }\n")
            with open(p, "w") as f:
                f.write(text)
        return live


DIMS = ["asks", "other", "full", "compiler", "profile", "crate", "edition"]
DOM = dict(asks=[True, False], other=["none", "nostd", "std"], full=[False, True], compiler=["stable", "nightly"], profile=["debug", "release"], crate=["std", "nostd"],
           edition=["2015", "2018", "2021", "2024"])


def covering(rng, strength, budget):
    """Configurations covering every combination of `strength` dimensions."""
    allc = [dict(zip(DIMS, z)) for z in itertools.product(*(DOM[k] for k in DIMS))]
    need = {(ks, tuple(g[k] for k in ks)) for g in allc for ks in itertools.combinations(DIMS, strength)}
    out = []
    while need and len(out) < budget:
        rng.shuffle(allc)
        g = max(allc, key=lambda g: sum((ks, tuple(g[k] for k in ks)) in need for ks in itertools.combinations(DIMS, strength)))
        out.append(g)
        need -= {(ks, tuple(g[k] for k in ks)) for ks in itertools.combinations(DIMS, strength)}
    return out, len(need)


def strata(x):
    d = x["d"]
    out = [d["kind"]]
    for v in d["vs"]:
        out += ["/".join(v["at"])] + [f"{f['ty']}:{'/'.join(f['at'])}:{f['show']}:{f['nm']}" for f in v["fs"]]
    return out


def check(c):
    q = c.tier == "quick"
    inv = ["Gates", "Monotone", "OneMeaning", "Somewhere"]
    one = c.tlc("Config", dict(MinEdits=0, MaxEdits=1), invariants=inv, tag="one").cases
    many = c.tlc("Config", dict(MinEdits=2, MaxEdits=7), invariants=inv, tag="many", simulate=40 if q else 1500, depth=12).cases
    xs = sorted(one, key=lambda x: json.dumps(x["d"], sort_keys=True)) + sorted(many, key=lambda x: json.dumps(x["d"], sort_keys=True))
    seen, cases = set(), []
    for x in xs:
        key = json.dumps(x["d"], sort_keys=True)
        if key not in seen:
            seen.add(key)
            cases.append(case(f"c{len(cases)}", x))
    configs, uncovered = covering(c.rng, 2 if q else 3, 16 if q else 60)
    c.extra["configurations"] = []
    c.extra["uncovered_combinations"] = uncovered
    # acceptance is asked of everything once per set of capabilities, of a sample in the others
    caps_seen = set()

    def one_config(n, g, fresh):
        std = g["asks"] or g["other"] == "std"
        caps = dict(std=std, gma=g["compiler"] == "nightly")
        ok = [k for k in cases if caps in k.info["x"]["ok"]]
        no = [k for k in cases if caps not in k.info["x"]["ok"]]
        rng = random.Random(f"{c.seed}-{n}")
        if not fresh and q:
            ok, no = rng.sample(ok, min(len(ok), 420)), rng.sample(no, min(len(no), 60))
        elif q:
            mixed = [k for k in no if "mixed" in k.info["x"]["why"]]
            no = rng.sample(no, min(len(no), 200))
            no += [k for k in rng.sample(mixed, min(len(mixed), 40)) if k not in no]
        tag = " ".join(f"{k}={g[k]}" for k in DIMS)
        found = []
        mine = [Case(k.id, k.src, k.call, {a: b for a, b in k.expect.items() if caps["gma"] or not a.endswith((".bt", ".tag"))}, dict(k.info, configuration=tag)) for k in ok]
        b = Build(c, f"g{n}", g)
        b.shards = 4
        res, failing = b.run(mine, on_compile_fail=lambda k, t: found.append((k, "an accepted declaration does not compile in this configuration", t)))
        for r in res.values():
            for k in r:
                r[k] = re.sub(r"Pointer \{ addr: 0xPTR, metadata: \d+ \}", "0xPTR", re.sub(r"0x[0-9a-f]+", "0xPTR", r[k]))
        b = Build(c, f"g{n}", g)
        b.shards = 4
        left = b.refused(no)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(os.path.join(c.work, f"target_g{n}"), ignore_errors=True)
        return mine, res, failing, found, left, len(no), tag
    jobs = []
    for n, g in enumerate(configs):
        k = (g["asks"] or g["other"] == "std", g["compiler"], g["full"])
        jobs.append((n, g, k not in caps_seen))
        caps_seen.add(k)
    with ThreadPoolExecutor(3) as ex:
        for mine, res, failing, found, left, nno, tag in ex.map(lambda j: one_config(*j), jobs):
            for k, what, t in found:
                c.violation(k.info["declaration"] + " @ " + tag, what, dict(rustc=t, src=k.src))
            compare(c, mine, res, failing, keyf=lambda k, o: k.info["declaration"] + " " + o + " @ " + tag)
            for k in left:
                c.violation(k.info["declaration"] + " @ " + tag, f"compiles although it is refused here ({', '.join(k.info['x']['why'])})", dict(src=k.src))
            c.validated += nno - len(left)
            c.extra["configurations"].append(dict(configuration=tag, observed=len(mine), refused=nno))
    for k in c.rng.sample(cases, 3):
        c.sample(dict(declaration=k.info["declaration"], accepted_in=k.info["x"]["ok"], expect=dict(list(k.expect.items())[:4])))
    c.assumptions += ["compilers: " + NIGHTLY + " and stable"]


if __name__ == "__main__":
    main(check, "C15")
