"""C14: the derive adds no warning to a declaration that has none."""
from vlib import *
import declr

HEADER = """
use thiserror::Error; use std::backtrace::Backtrace; use std::fmt;
#[derive(Debug)] pub struct E; impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } } impl std::error::Error for E {}
#[derive(Debug)] pub struct F; impl fmt::Display for F { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } } impl std::error::Error for F {}
#[derive(Debug)] pub enum Void {} impl fmt::Display for Void { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { match *self {} } } impl std::error::Error for Void {}
#[deprecated] #[derive(Debug)] pub struct DepE; #[allow(deprecated)] impl fmt::Display for DepE { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } } #[allow(deprecated)] impl std::error::Error for DepE {}
#[deprecated] #[derive(Debug)] pub struct Dep<T>(pub T); #[allow(deprecated)] impl<T: fmt::Display> fmt::Display for Dep<T> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } } #[allow(deprecated)] impl<T: fmt::Display + fmt::Debug> std::error::Error for Dep<T> {}
#[deprecated] pub trait DepTrait {} #[allow(deprecated)] impl DepTrait for u8 {}
#[derive(Debug)] pub struct Gen<T>(pub T); impl<T: fmt::Display> fmt::Display for Gen<T> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } } impl<T: fmt::Display + fmt::Debug> std::error::Error for Gen<T> {}
pub trait Tag {} impl<T> Tag for T {} pub const K: u8 = 1;
pub fn fmt0(f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("x") }
pub fn fmt1<A>(_: &A, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("x") }
pub fn fmt2<A, B>(_: &A, _: &B, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("x") }
pub fn fmt3<A, B, C>(_: &A, _: &B, _: &C, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("x") }
"""
TYPES = {"Int": "u8", "Str": "String", "E": "E", "F": "F", "OptE": "Option<E>", "Bt": "Backtrace", "OptBt": "Option<Backtrace>", "T": "T", "OptT": "Option<T>", "DepT": "Dep<T>",
         "OptDepT": "Option<Dep<T>>", "DepE": "DepE", "OptDepE": "Option<DepE>", "RefA": "&'a E", "Path": "std::path::PathBuf", "Unit": "()", "Void": "Void", "BoxDyn": "Box<dyn std::error::Error>",
         "BoxDynSync": "Box<dyn std::error::Error + Send + Sync>",
         "QE": "crate::header::E", "OptQE": "Option<crate::header::E>", "QGen": "crate::header::Gen<T>", "OptQGen": "Option<crate::header::Gen<T>>"}
PARAMS = ("T", "OptT", "DepT", "OptDepT", "QGen", "OptQGen")
DISPLAYABLE = {"Int", "Str", "E", "F", "T", "DepT", "DepE", "Path", "BoxDyn", "BoxDynSync", "RefA", "QE", "QGen", "Void"}
CORE = {"deprecated", "non_snake_case", "missing_docs", "unused_qualifications", "unused_variables", "elided_lifetimes_in_paths", "dead_code", "non_camel_case_types", "unconditional_recursion",
        "unreachable_pub", "unused_imports", "unused_must_use", "single_use_lifetimes", "unreachable_code", "unused_lifetimes"}


class R:
    """Renders one declaration; gathers which allows its own code needs, and where."""

    def __init__(self, x, i, v):
        self.d, self.i, self.v = x["d"], i, v
        self.item, self.passed = set(), []

    def allow(self, lint):
        """Where the user put it: on the entity itself, on the whole type, or on the module."""
        if self.d["allowat"] == "entity" and lint == "deprecated":
            return f"#[allow({lint})] "
        self.item.add(lint)
        return ""

    def name(self, f, j):
        base = f["nm"]
        if base == "source":
            return "source", ""
        s = f["ns"]
        n = {"plain": base, "under": "_" + base, "tail": base + "_", "camel": base + "B", "dunder": base + "__b", "raw": "r#" + ["type", "match", "fn"][j % 3], "num": base + "0"}[s]
        return n, self.allow("non_snake_case") if s in ("camel", "dunder") else ""

    def cap(self, s, default, snake, raw):
        if s == "plain":
            return default, ""
        if s == "under":
            return "_" + default, ""
        return (snake if s == "snake" else raw), "non_camel_case_types"

    def msg(self, v, names):
        show = set(v["show"])
        out, args = [], []
        un = [n[2:] if n.startswith("r#") else n for n in names]
        for f, n, u in zip(v["fs"], names, un):
            if "disp" in show and f["ty"] in DISPLAYABLE:
                out.append("{%s}" % u)
            if "dbg" in show:
                out.append("{%s:?}" % u)
            if "ptr" in show and f["ty"] == "RefA":
                out.append("{%s:p}" % u)
        # a reference in an argument asks for no bound
        refs = [n for f, n in zip(v["fs"], names) if f["ty"] not in PARAMS]
        if refs and "arg" in show:
            if v["style"] == "tuple":
                out.append("{z:?}")
                args.append("z = ." + refs[0])
            else:
                out.append("{:?}")
                args.insert(0, "." + refs[0])
        if refs and "named" in show:
            out.append("{n:?}")
            args.append("n = ." + refs[0])
        if "qual" in show:
            out.append("{k}")
            args.append("k = crate::header::K")
            self.item.add("unused_qualifications")
        if "self" in show:
            # wherever it stands, and in every form that displays
            out.insert(self.v // 3 % (len(out) + 1), ["{self}", "{self:>4}", "{self} {self}" if any(f["ty"] in PARAMS for v in self.d["vs"] for f in v["fs"]) else "{self:?} {self}"][self.v // 7 % 3])
        return "#[error(" + ", ".join([rust_str("m " + " ".join(out)), *args]) + ")] "

    def attrs(self, at, v=None, names=()):
        out = ""
        for a in at:
            if a == "msg":
                out += self.msg(v, names) if v else '#[error("default")] '
            elif a == "fmt":
                out += f"#[error(fmt = crate::fmt{len(v['fs'])})] "
            else:
                out += declr.attr(a, 0) + " "
        return out

    def body(self, v, vis):
        parts, names = [], []
        for j, f in enumerate(v["fs"]):
            n, al = self.name(f, j) if v["style"] == "named" else (str(j), "")
            names.append(n)
            if self.d["place"] == "macro" and v["style"] == "named":
                self.passed.append(n)
                n = f"$f{len(self.passed)}"
            dep = "#[deprecated] " if f["dep"] else ""
            if "header" in TYPES[f["ty"]]:
                self.item.add("unused_qualifications")
            if f["ty"].startswith(("Dep", "OptDep")):
                al += self.allow("deprecated")
            ty = TYPES[f["ty"]]
            if "lifetimes" in self.d["gens"]:
                ty = ty.replace("&'a E", "&'a &'b E")
            parts.append(f"#[doc = \"d\"] {dep}{al}{self.attrs(f['at'])}{vis}{n + ': ' if v['style'] == 'named' else ''}{ty}")
        b = ", ".join(parts)
        return ("{ %s }" % b if v["style"] == "named" else "(%s)" % b if v["style"] == "tuple" else ""), names

    def text(self):
        d = self.d
        tys = [f["ty"] for v in d["vs"] for f in v["fs"]]
        gens, where = [], ""
        if "RefA" in tys:
            gens.append("'a")
            if "lifetimes" in d["gens"]:
                gens.append("'b")
        if any(t in PARAMS for t in tys):
            t = "T"
            if "qbound" in d["gens"]:
                t += ": crate::header::Tag"
                self.item.add("unused_qualifications")
            if "bound" in d["gens"]:
                t += (" + " if ":" in t else ": ") + "DepTrait"
                self.item.add("deprecated")
            if "where" in d["gens"]:
                where = " where T: DepTrait"
                self.item.add("deprecated")
            if "qwhere" in d["gens"]:
                where += (", " if where else " where ") + "T: crate::header::Tag"
                self.item.add("unused_qualifications")
            if "default" in d["gens"]:
                t += " = u8"
            gens.append(t)
        if "const" in d["gens"]:
            gens.append("const N: usize" + (" = 3" if "default" in d["gens"] else ""))
        g = "<" + ", ".join(gens) + ">" if gens else ""
        name, lint = self.cap(d["ns"], "S", "my_type", "r#type")
        if lint:
            self.item.add(lint)
        vis = "" if d["place"] in ("private", "fn") else "pub "
        if d["kind"] == "struct":
            v = d["vs"][0]
            b, names = self.body(v, vis)
            at = self.attrs(d["at"], v, names)
            core = f"{vis}struct {name}{g}" + (f"{where} {b}" if v["style"] == "named" else f"{b}{where};")
        else:
            vs = []
            for k, v in enumerate(d["vs"]):
                n, lint = self.cap(v["ns"], f"V{k}", f"vee{k}", "r#" + ["match", "type", "fn", "use"][k % 4])
                al = self.allow(lint) if lint else ""
                b, names = self.body(v, "")
                vs.append(f"#[doc = \"d\"] {'#[deprecated] ' if v['dep'] else ''}{al}{self.attrs(v['at'], v, names)}{n} {b}")
            at = self.attrs(d["at"])
            core = f"{vis}enum {name}{g}{where} {{ {', '.join(vs)} }}"
        if d["place"] in ("private", "fn"):
            self.item.add("dead_code")
        al = f"#[allow({', '.join(sorted(self.item))})] " if self.item else ""
        outer = al if d["allowat"] == "module" else ""
        derive = ["#[derive(Error, Debug)] ", "#[derive(Debug, Error)] "][self.v % 2]
        core = f"#[doc = \"d\"] {derive}{'#[deprecated] ' if d['dep'] else ''}{'' if outer else al}{at}{core}"
        if d["place"] == "fn":
            core = f"#[doc = \"d\"] pub fn case() {{ {core} }}"
        if d["place"] == "macro":
            if any(n.startswith("self") for n in self.passed):
                raise ValueError
            for k, n in reversed(list(enumerate(self.passed))):
                pass
            core = (f"macro_rules! mk {{ ({', '.join(f'$f{k + 1}:ident' for k in range(len(self.passed)))}) => {{ {self.subst(core)} }} }} mk! {{ {', '.join(self.passed)} }}")
        return f"{outer}#[doc = \"d\"] pub mod {self.i} {{ #[allow(unused_imports)] use super::*; {core} }}"

    def subst(self, core):
        """References to a passed name are passed as well."""
        return core


def lints(tc):
    out = subprocess.run(["rustup", "run", tc, "rustc", "-W", "help"], stdout=subprocess.PIPE, text=True).stdout
    part = out[out.index("Lint checks provided by rustc"):out.index("Lint groups provided by rustc")]
    return sorted(m[1].replace("-", "_") for m in re.finditer(r"^\s+([a-z0-9-]+)\s+(?:allow|warn|deny)\s", part, re.M))


SHARDS = 6
SKIP = {"unstable_features", "unused_crate_dependencies", "linker_messages", "linker_info"}


def observe(c, tag, tc, cases, real, clippy=False):
    """{case: {lint: count}} for one toolchain, with the real derive or the one that generates nothing."""
    d = os.path.join(c.work, f"ws_{tag}")
    shutil.rmtree(d, ignore_errors=True)
    dep = f'{{ path = "{REPO}" }}' if real else f'{{ path = "{VERIF}/harness/noop" }}'
    os.makedirs(d)
    names = [f"p{s}" for s in range(SHARDS)]
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write("[workspace]\nresolver = \"2\"\nmembers = [%s]\n" % ", ".join(f'"{n}"' for n in names))
    if real:
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock.gen"), os.path.join(d, "Cargo.lock"))
    nightly = "nightly" in tc
    warn = [z for z in lints(tc) if z not in SKIP]
    lines = {}
    for s, n in enumerate(names):
        os.makedirs(os.path.join(d, n, "src"))
        with open(os.path.join(d, n, "Cargo.toml"), "w") as f:
            f.write(f'[package]\nname = "{n}"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n[dependencies]\nthiserror = {dep}\n')
        text = "//! d\n" + ("#![feature(error_generic_member_access)]\n" if nightly else "") + f"#![warn({', '.join(warn)})]\n"
        if clippy:
            text += "#![warn(clippy::all, clippy::pedantic, clippy::nursery, clippy::restriction)]\n"
        text = text + "#![allow(unknown_lints)]\n" + "mod header {" + HEADER + "}\n#[allow(unused_imports)] use header::*; use std::backtrace::Backtrace; use thiserror::Error;\n"
        text = text.replace("mod header {", "#[allow(warnings)] mod header {" if not clippy else "#[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery, clippy::restriction)] mod header {")
        at = text.count("\n")
        for k in cases[s::SHARDS]:
            at += 1
            lines[(n, at)] = k.id
            text += k.src + "\n"
        with open(os.path.join(d, n, "src", "lib.rs"), "w") as f:
            f.write(text)
    env = base_env()
    env["RUSTUP_TOOLCHAIN"] = tc
    env["CARGO_TARGET_DIR"] = os.path.join(d, "target")
    p = subprocess.run(["cargo", "clippy" if clippy else "check", "--offline", "--message-format=json", "--keep-going", "-j", "8"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=850)
    got, errors, said = {}, [], {}
    for line in p.stdout.splitlines():
        if not line.startswith(b"{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message":
            continue
        n = os.path.basename(os.path.dirname(os.path.dirname(m["target"]["src_path"])))
        m = m["message"]
        if n not in names:
            continue
        ids = set()
        for sp in m.get("spans", []):
            while sp:
                if sp.get("is_primary", True) and (n, sp["line_start"]) in lines:
                    ids.add(lines[(n, sp["line_start"])])
                sp = (sp.get("expansion") or {}).get("span")
        if m["level"] == "error":
            errors.append((sorted(ids), m["message"], m.get("rendered", "")[:600]))
            continue
        code = (m.get("code") or {}).get("code")
        if m["level"] != "warning" or not code:
            continue
        for i in ids:
            got.setdefault(i, {}).setdefault(code, 0)
            got[i][code] += 1
            said[(i, code)] = m.get("rendered", "")[:900]
    if p.returncode and not errors:
        raise ToolError("cargo check failed: " + p.stderr.decode(errors="replace")[-1500:])
    return got, errors, said


def check(c):
    q = c.tier == "quick"
    inv = ["Silent", "RecursionTold"]
    one = c.tlc("Lint", dict(MaxEdits=1, Code="fixed"), invariants=inv, tag="one").cases
    two = c.tlc("Lint", dict(MaxEdits=2, Code="fixed"), invariants=inv, tag="two").cases
    many = c.tlc("Lint", dict(MaxEdits=9, Code="fixed"), invariants=inv, tag="many", simulate=12 if q else 500, depth=12).cases
    if not c.tlc("Lint", dict(MaxEdits=1, Code="old"), invariants=["Silent"], tag="old", emit=False, allow_violation=True).violation:
        raise ToolError("the specification does not distinguish expansions that warn")
    strata = {}
    for x in two:
        strata.setdefault(tuple(sorted(features(x))), []).append(x)
    pick = list(one)
    ks = sorted(strata)
    c.rng.shuffle(ks)
    for k in ks[:900 if q else len(ks)]:
        pick += c.rng.sample(strata[k], 1 if q else min(3, len(strata[k])))
    pick += many
    seen, cases = set(), []
    for x in pick:
        key = json.dumps(x["d"], sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        i = f"c{len(cases)}"
        r = R(x, i, declr.h(c.seed, key))
        try:
            src = r.text()
        except ValueError:
            continue
        cases.append(Case(i, src, "", {}, x))
    stats = {}
    for tc in ([NIGHTLY, STABLE] if q else [NIGHTLY, STABLE, "nightly", "1.98.1"]):
        part = [k for k in cases if "nightly" in tc or not k.info["bt"]]
        judge(c, tc, part, stats, False)
    if not q:
        judge(c, STABLE, [k for k in cases if not k.info["bt"]], stats, True)
    c.extra["configurations"] = stats
    for k in c.rng.sample(cases, 3):
        c.sample(dict(d=k.info["d"], source=k.src))


def features(x):
    d = x["d"]
    out = {"kind " + d["kind"], "place " + d["place"], "allow " + d["allowat"], "ns " + d["ns"]} | {"gens " + g for g in d["gens"]} | ({"dep"} if d["dep"] else set())
    for v in d["vs"]:
        out |= {"vdep"} if v["dep"] else set()
        out |= {"vns " + v["ns"]} | {"show " + z for z in v["show"]} | {"at " + a for a in v["at"] + d["at"]}
        for f in v["fs"]:
            out |= {"fns " + f["ns"], "ty " + f["ty"]} | {f"fat {a} {f['dep']}" for a in f["at"]} | ({"fdep"} if f["dep"] else set())
    return out


def judge(c, tc, cases, stats, clippy):
    tag = tc + ("_clippy" if clippy else "")
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(observe, c, tag + "_real", tc, cases, True, clippy)
        b = ex.submit(observe, c, tag + "_noop", tc, cases, False, clippy)
        (got, errors, said), (own, oerr, osaid) = a.result(), b.result()
    if oerr:
        raise ToolError(f"the declarations do not compile without the derive: {oerr[0]}")
    by = {k.id: k for k in cases}
    bad = set()
    for ids, m, r in errors:
        if m.startswith(("aborting", "could not compile")):
            continue
        for i in ids or [None]:
            bad.add(i)
            c.violation(f"{by[i].info['d'] if i else tc}", f"does not compile on {tc}: {m}", dict(src=by[i].src if i else "", rendered=r))
    loud = 0
    seen = {}
    for k in cases:
        if k.id in bad:
            continue
        o, g = own.get(k.id, {}), got.get(k.id, {})
        if set(o) & CORE:
            loud += 1
            seen.setdefault(tuple(sorted(set(o) & CORE)), (k.src, [osaid[(k.id, z)] for z in set(o) & CORE]))
        c.validated += 1
        for lint, n in sorted(g.items()):
            if lint in o:
                continue
            if lint == "unconditional_recursion":
                continue
            c.violation(json.dumps(k.info["d"], sort_keys=True), f"the derive adds the warning {lint} on {tc}", dict(src=k.src, rendered=said[(k.id, lint)]))
        if g.get("unconditional_recursion", 0) != k.info["recursive"]:
            c.violation(json.dumps(k.info["d"], sort_keys=True), f"{g.get('unconditional_recursion', 0)} warnings about recursion on {tc}, the specification has {k.info['recursive']}", dict(src=k.src))
    stats[tag] = dict(declarations=len(cases), not_silent_on_their_own=loud)
    if loud:
        log("own warnings:", {str(k): v for k, v in list(seen.items())[:3]})
    if loud > len(cases) // 20:
        raise ToolError(f"{loud} of {len(cases)} declarations warn on their own: {seen}")


if __name__ == "__main__":
    main(check, "C14")
