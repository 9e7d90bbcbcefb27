"""C12: rejected declarations give one diagnostic and nothing else; no attribute contents make the derive panic."""
from vlib import *
import declr

PLACES = {
    "named": "{A} struct S {{ a: E, x: u8 }}", "tuple": "{A} struct S(E, u8);", "unit": "{A} struct S;",
    "enum": '{A} enum S {{ V {{ a: E }}, W }}', "variant": '#[error("o")] enum S {{ {A} V {{ a: E, x: u8 }}, W(E) }}',
    "tuplevariant": 'enum S {{ {A} V(E, u8), #[error("w")] W }}', "field": '#[error("m")] struct S {{ {A} a: E, b: u8 }}',
    "tuplefield": '#[error("m")] enum S {{ V({A} E) }}',
}


def soup(x):
    content = " ".join(t for t in [x["pre"], *x["toks"]] if t)
    a = x["attr"]
    at = {"paren": f"#[{a}({content})]", "bracket": f"#[{a}[{content}]]", "brace": f"#[{a}{{{content}}}]", "value": f"#[{a} = {content}]", "bare": f"#[{a}]"}[x["delim"]]
    return PLACES[x["place"]].replace("{{", "\0").replace("}}", "\1").replace("{A}", at).replace("\0", "{").replace("\1", "}")


def part_a(c):
    q = c.tier == "quick"
    inv = ["Balanced"]
    xs = c.tlc("Soup", dict(MaxTokens=1, MaxDepth=1, Focus=False), invariants=inv, tag="one").cases
    xs += c.tlc("Soup", dict(MaxTokens=2 if q else 3, MaxDepth=1 if q else 2, Focus=True), invariants=inv, tag="focus", timeout=900).cases
    xs += c.tlc("Soup", dict(MaxTokens=14, MaxDepth=4, Focus=False), invariants=inv, tag="long", simulate=600 if q else 20000, depth=30, timeout=900).cases
    xs += c.tlc("Soup", dict(MaxTokens=14, MaxDepth=4, Focus=True), invariants=inv, tag="longfocus", simulate=1200 if q else 40000, depth=30, timeout=900).cases
    # every token can stand after every token once spaces are gone: leave some out
    items = [(str(k), soup(x)) for k, x in enumerate(xs)]
    stats = {}
    for full in (False, True):
        ip = InProc(c, synfull=full)
        res = ip.run(items, ["--wellformed"] if full else [], timeout=120)
        again = []
        for (i, src), x in zip(items, xs):
            if i not in res:
                again.append((i, src))
        if again:  # a shard died or hung: find out on what
            ip2 = again[:4000]
            for k in range(0, len(ip2), 1):
                r = ip.run([ip2[k]], ["--wellformed"] if full else [], timeout=20)
                res.update(r)
                if ip2[k][0] not in res:
                    res[ip2[k][0]] = ("crash", ["no answer"], "")
                if sum(1 for z in res.values() if z[0] == "crash") > 3:
                    break
        n = 0
        for (i, src), x in zip(items, xs):
            if i not in res or len(c.violations) > 100:
                continue
            kind, msgs, _ = res[i]
            stats[kind] = stats.get(kind, 0) + 1
            if kind == "input":
                continue
            n += 1
            if kind in ("panic", "crash"):
                c.violation(src, f"the derive {'panics' if kind == 'panic' else 'does not terminate normally'}: {msgs} (full syntax {full})", src)
            elif kind == "malformed":
                c.violation(src, f"the expansion is not well-formed Rust: {msgs}", src)
            elif kind == "err" and len(msgs) != 1:
                c.violation(src, f"{len(msgs)} diagnostics: {msgs}", src)
            elif x["verdict"] == "accept" and kind != "ok":
                c.violation(src, f"rejected: {msgs}, but nothing in the attribute breaks a rule", src)
            elif x["verdict"] == "reject" and kind == "ok":
                c.violation(src, "accepted, but the attribute has none of the accepted forms", src)
        c.validated += n
    c.extra["soup"] = dict(declarations=len(items), outcomes=stats)
    for i, src in c.rng.sample(items, 2):
        c.sample(dict(declaration=src, outcome=res.get(i, ["?"])[0]))


HEADER = """
use thiserror::Error; use std::backtrace::Backtrace; use std::marker::PhantomData;
#[derive(Debug)] pub struct E; impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } } impl std::error::Error for E {}
/// An error that carries parameters.
pub struct C<L, T: ?Sized, const N: usize>(PhantomData<L>, PhantomData<T>, [u8; N]);
impl<L, T: ?Sized, const N: usize> std::fmt::Debug for C<L, T, N> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl<L, T: ?Sized, const N: usize> std::fmt::Display for C<L, T, N> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl<L, T: ?Sized, const N: usize> std::error::Error for C<L, T, N> {}
pub fn need<X: std::error::Error>(_: &X) {}
pub fn show<X: std::fmt::Display>(_: &X) {}
pub trait Has { type Item; } impl Has for u8 { type Item = u8; }
"""


def decorate(x):
    """Generics of a declaration: (parameter list, where clause, type carrying the parameters, type arguments, generic use)."""
    g = x["gens"]
    lt = {"none": [], "'a": ["'a"], "'a+'b": ["'a", "'b: 'a"]}[g["life"]]
    ty = {"none": [], "T": ["T"], "T:Bound": ["T: Clone + Send"], "T:?Sized": ["T: ?Sized"], "T=": ["T = u8"], "T,U": ["T", "U"]}[g["ty"]]
    if g["where"] == "assoc":
        ty = [t.replace("T", "T: Has", 1) if ":" not in t.split("=")[0] else t + " + Has" for t in ty[:1]] + ty[1:]
        ty = [t if not t.startswith("T: Has = ") else t for t in ty]
    co = {"none": [], "N": ["const N: usize"], "N=": ["const N: usize = 2"]}[g["const"]]
    if ty and ty[0].endswith("= u8") and g["const"] == "N":
        co = ["const N: usize = 2"]
    params = lt + ty + co
    wh = {"none": "", "trivial": "where u8: Copy", "self": "where Self: Sized", "T:Clone": "where T: Clone", "hrtb": "where for<'x> &'x T: Send", "assoc": "where T::Item: Clone",
          "life": "where 'b: 'a", "two": "where T: Clone, u8: Copy,", "comma": "where T: Clone,"}[g["where"]]
    names = [t.split(":")[0].split("=")[0].strip() for t in ty]
    life = {"none": "u8", "'a": "&'a ()", "'a+'b": "&'a &'b ()"}[g["life"]]
    carried = life + ", (" + ", ".join(f"PhantomData<{n}>" for n in names) + ")"
    n = "N" if co else "1"
    field = f"C<{carried}, {n}>" if params else "E"
    conc = ["'static"] * len(lt) + ["u8"] * len(ty) + ["3"] * len(co)
    args = [z.split(":")[0] for z in lt] + names + (["N"] if co else [])
    return params, wh, field, conc, args


def ref(name, a):
    return name + ("<" + ", ".join(a) + ">" if a else "")


def undefault(p):
    return [z.split(" = ")[0] for z in p]


def use_text(u, conc, params, args, wh, i):
    s = ref("S", conc)
    if u == "box":
        return f"fn u_box(x: {s}) -> Box<dyn std::error::Error> {{ Box::new(x) }}"
    if u == "to_string":
        return f"fn u_str(x: {s}) -> String {{ x.to_string() }}"
    if u == "question":
        return f"fn u_q(x: Result<(), {s}>) -> Result<(), Box<dyn std::error::Error>> {{ x?; Ok(()) }}"
    if u == "write":
        return f"fn u_w(x: {s}, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ write!(f, \"{{x}} {{:>5}}\", &x) }}"
    if u == "source":
        return f"fn u_s<'s>(x: &'s {s}) -> Option<&'s (dyn std::error::Error + 'static)> {{ std::error::Error::source(x) }}"
    if u == "wrapped":
        return f"#[derive(Error, Debug)] enum Outer {{ #[error(\"outer {{0}}\")] V(#[source] {s}), #[error(transparent)] W {{ x: {s} }} }}"
    if u == "bound":
        return f"fn u_b(x: {s}) {{ need(&x) }}"
    if u == "display":
        return f"fn u_d(x: {s}) {{ show(&x) }}"
    if u == "dyn":
        return f"fn u_dyn<'s>(x: &'s {s}) -> &'s dyn std::error::Error {{ x }}"
    if u == "generic":
        w = (wh.rstrip(",") + ", " if wh and "Self" not in wh else "where ") + f"{ref('S', args)}: std::fmt::Debug"
        return f"fn u_g{'<' + ', '.join(undefault(params)) + '>' if params else ''}(x: &{ref('S', args)}) {w} {{ need(x); show(x) }}"
    raise ValueError(u)


def render(x, v, name):
    d = x["d"]
    params, wh, field, conc, args = decorate(x)
    types = dict(declr.TYPES, E=field)
    g = "<" + ", ".join(params) + ">" if params else ""
    dbg = "" if d["kind"] == "union" else "Debug"
    mentions = any(f["ty"] == "E" for z in d["vs"] for f in z["fs"])
    der = f"#[derive({'Error, ' + dbg if v % 2 and dbg else dbg + ', Error' if dbg else 'Error'})] "
    head = der + declr.attrs(d["at"], v)
    if d["kind"] == "enum":
        vs = [f"{declr.attrs(z['at'], v + k)} V{k + 1} {declr.fields(z['fs'], z['style'], v, types)}" for k, z in enumerate(d["vs"])]
        text = f"{head} pub enum S{g} {wh} {{ {', '.join(vs)} }}"
    else:
        z = d["vs"][0]
        fs = z["fs"]
        if d["kind"] == "union":
            types = {k: f"std::mem::ManuallyDrop<{t}>" for k, t in types.items()}
        body = declr.fields(fs, z["style"], v, types)
        text = f"{head} pub {d['kind']} S{g} {wh + ' ' + body if z['style'] == 'named' else body + ' ' + wh + ';'}"
    if d["kind"] == "union":
        w = " " + wh if wh else ""
        text += f" impl{'<' + ', '.join(undefault(params)) + '>' if params else ''} std::fmt::Debug for {ref('S', args)}{w} {{ fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {{ Ok(()) }} }}"
    uses = " ".join(use_text(u, conc, params, args, wh, 0) for u in sorted(x["uses"]))
    return text, f"mod {name} {{ use super::*; {text}\n {uses} }}"


def part_b(c):
    q = c.tier == "quick"
    inv = ["OneDiagnostic"]
    # one use at a time with plain generics; all generics with all uses
    a = c.tlc("Reject", dict(MaxEdits=1, MaxUses=1, AllGens=False), invariants=inv, tag="uses").cases
    b = c.tlc("Reject", dict(MaxEdits=1, MaxUses=0, AllGens=True), invariants=inv, tag="gens").cases
    s = c.tlc("Reject", dict(MaxEdits=4, MaxUses=5, AllGens=True), invariants=inv, tag="many", simulate=60 if q else 600, depth=14).cases
    for x in b:
        x["uses"] = ["box", "bound", "display", "dyn", "generic", "question", "source", "to_string", "wrapped", "write"]
    # the same, and declarations edited more often, in process: one diagnostic for all that is wrong together
    mess = c.tlc("Reject", dict(MaxEdits=7, MaxUses=0, AllGens=False), invariants=inv, tag="mess", simulate=400 if q else 6000, depth=12).cases
    ip = InProc(c, synfull=False)
    items = [(str(i), render(x, declr.h(c.seed, json.dumps(x["d"], sort_keys=True)), "m")[0]) for i, x in enumerate(a + b + s + mess)]
    items = [(i, t.split(" impl", 1)[0] if " union S" in t else t) for i, t in items]
    res = ip.run(items, [], timeout=120)
    several = 0
    for (i, text), x in zip(items, a + b + s + mess):
        kind, msgs, _ = res.get(i, ("crash", ["no answer"], ""))
        several += len(x["rules"]) > 1
        if kind == "ok":
            c.violation(text, f"accepted, but it breaks {x['rules']}", text)
        elif kind != "err" or len(msgs) != 1:
            c.violation(text, f"instead of one diagnostic: {kind} {msgs}", text)
        c.validated += 1
    c.extra["in_process"] = dict(declarations=len(items), breaking_several_rules=several)
    strata = {}
    for x in a + b:
        strata.setdefault((tuple(sorted(x["rules"])), x["d"]["kind"]), []).append(x)
        strata.setdefault(("gens", json.dumps(x["gens"], sort_keys=True), tuple(x["uses"]) if len(x["uses"]) == 1 else ()), []).append(x)
    per = 2 if q else 12
    pick = []
    for k in sorted(strata, key=str):
        pick += c.rng.sample(strata[k], min(per, len(strata[k])))
    pick += c.rng.sample(s, min(len(s), 250 if q else 4000))
    if len(pick) > (2600 if q else 20000):
        pick = c.rng.sample(pick, 2600 if q else 20000)
    cases = []
    for x in pick:
        if any(f["ty"] == "E" and x["gens"]["ty"] == "T:?Sized" for z in x["d"]["vs"] for f in z["fs"]) and x["gens"]["where"] == "assoc":
            continue
        i = f"r{len(cases)}"
        text, src = render(x, declr.h(c.seed, json.dumps(x["d"], sort_keys=True)), i)
        cases.append(Case(i, src, "", {}, dict(text=text, rules=x["rules"], uses=x["uses"])))
    run = RustRun(c, "reject", toolchain=STABLE, header=HEADER, shards=8)
    run.write(cases)
    rc, diags, err = run.build()
    got = {}
    stray = []
    for path, m, tgt in diags:
        if m.get("level") != "error" or m["message"].startswith("aborting due to"):
            continue
        ks = run.locate(path, m)
        if not ks:
            stray.append(m["message"])
        for k in ks:
            got.setdefault(k.id, []).append(m)
    if stray:
        c.violation("diagnostics", f"errors outside every declaration: {stray[:3]}")
    for k in cases:
        ms = got.get(k.id, [])
        if not ms:
            c.violation(k.info["text"], f"rustc reports no error for a declaration that breaks {k.info['rules']}", k.src)
        elif len(ms) > 1:
            c.violation(k.info["text"], f"{len(ms)} errors instead of one: {[m['message'] for m in ms[:4]]}", k.src)
        else:
            named = declr.rule_of(ms[0]["message"])
            if (ms[0].get("code") or {}).get("code"):
                c.violation(k.info["text"], f"an error of rustc's instead of the diagnostic: {ms[0]['message']}", k.src)
            elif named and named not in k.info["rules"] and not ("malformed" in k.info["rules"] and named.startswith("dup-")):
                c.violation(k.info["text"], f"the diagnostic names {named}, the declaration breaks {k.info['rules']}", k.src)
        c.validated += 1
    c.extra["rejected_with_uses"] = len(cases)
    for k in c.rng.sample(cases, 2):
        c.sample(k.info)


def check(c):
    part_b(c)
    part_a(c)


if __name__ == "__main__":
    main(check, "C12")
