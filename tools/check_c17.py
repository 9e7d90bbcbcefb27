"""C17: the build script against stand-in compilers (and the real ones), over configurations and histories of module Build."""
import itertools
import pwd  # noqa
import tempfile
from vlib import *

INV = ["Fresh", "NothingLeft", "Modest", "OptOut", "OptIn", "Nested", "Unreadable", "Old"]
FLAGS = {"empty": [], "plain": ["--cfg", "x"], "space": ["--cfg", 'k="a b"'], "deny": ["-Zallow-features="],
         "restrict": ["-Zallow-features=foo,error_generic_member_access"], "two": ["-Cdebuginfo=1", "--cfg", "y"]}
TARGETS = {"known": "known-triple", "nostd": "nostd-triple", "unknown": "unknown-triple"}


def version_bytes(v):
    if v[0] == "binary":
        return b"rustc 1.\xff\xfe.0\n"
    if v[0] == "":
        return b""
    return (f"{v[0]} {v[1]}.{v[2]}{v[3]}\n" if v[2] or v[3] else f"{v[0]} {v[1]}\n").encode()


class Script:
    """The build script of /repo, compiled with and without the std feature, in a scratch copy of the package."""

    def __init__(self, c):
        # run by an unprivileged user: the code under test removes folders
        self.root = tempfile.mkdtemp(prefix="c17-")
        os.chmod(self.root, 0o755)
        self.pkg = os.path.join(self.root, "pkg")
        os.makedirs(os.path.join(self.pkg, "build"))
        for f in ("build.rs", "build/probe.rs"):
            shutil.copy(os.path.join(REPO, f), os.path.join(self.pkg, f))
        for d in os.listdir(os.path.join(REPO, "build")):
            p = os.path.join(REPO, "build", d)
            if os.path.isfile(p):
                shutil.copy(p, os.path.join(self.pkg, "build", d))
        shutil.copytree(os.path.join(VERIF, "harness", "fake"), os.path.join(self.root, "fake"))
        shutil.copy(os.path.join(self.root, "fake", "wrapper"), os.path.join(self.root, "fake", "wrapper-ws"))
        env = base_env()
        env["RUSTUP_TOOLCHAIN"] = STABLE
        self.exe = {}
        for std in ("on", "off"):
            exe = os.path.join(self.root, "script-" + std)
            cmd = ["rustc", "--edition=2018", "--crate-name", "build_script_build", "build.rs", "-o", exe] + (["--cfg", 'feature="std"'] if std == "on" else [])
            p = subprocess.run(cmd, cwd=self.pkg, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise ToolError("the build script does not compile:\n" + p.stdout.decode(errors="replace")[-2000:])
            self.exe[std] = exe
        subprocess.run(["chmod", "-R", "a+rX", self.root], check=True)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def directives(text):
    out = dict(gma=False, std=False, nobt=False, rerun=False, declared=set(), cfgs=[])
    for line in text.split("\n"):
        m = re.match(r"cargo::?([a-z-]+)=(.*)", line)
        if not m:
            continue
        k, v = m[1], m[2].strip()
        if k == "rustc-cfg":
            out["cfgs"].append(v)
            out["gma"] |= v == "error_generic_member_access"
            out["std"] |= v == 'feature="std"'
            out["nobt"] |= v == "thiserror_no_backtrace_type"
        elif k == "rerun-if-env-changed":
            out["rerun"] |= v == "RUSTC_BOOTSTRAP"
        elif k == "rustc-check-cfg":
            out["declared"] |= set(re.findall(r"\w+", v)) - {"cfg"}
    return out


def replay(s, n, x):
    """One history, with Cargo's decision to rerun taken from the script's own directives. Yields differences."""
    cfg = x["cfg"]
    base = os.path.join(s.root, f"case{n}" + (" a b" if cfg["dir"] == "space" else ""))
    out = os.path.join(base, "out")
    bind = os.path.join(base, "bin")
    os.makedirs(out)
    os.makedirs(bind)
    bad = []
    obs = []
    try:
        for d in (base, out):
            os.chmod(d, 0o777)
        with open(os.path.join(base, "conf"), "w") as f:
            f.write("".join(f"{k}={cfg[k]}\n" for k in ("chan", "api", "wrap", "ws", "dir")))
        with open(os.path.join(base, "version"), "wb") as f:
            f.write(version_bytes(cfg["version"]))
        for k in ("rustc", "wrapper", "wrapper-ws"):
            os.symlink(os.path.join(s.root, "fake", k), os.path.join(bind, k))
        if cfg["dir"] == "stale":
            os.makedirs(os.path.join(out, "probe", "sub"))
            open(os.path.join(out, "probe", "sub", "left"), "w").close()
            for d, _, _ in os.walk(os.path.join(out, "probe")):
                os.chmod(d, 0o777)
        env = {"PATH": "/usr/bin:/bin", "FAKE": base, "OUT_DIR": out, "RUSTC": os.path.join(bind, "rustc" if cfg["chan"] != "missing" else "absent")}
        if cfg["stage"] != "unset":
            env["RUSTC_STAGE"] = cfg["stage"]
        if cfg["wrap"] != "unset":
            env["RUSTC_WRAPPER"] = "" if cfg["wrap"] == "empty" else os.path.join(bind, "wrapper")
        if cfg["ws"] != "unset":
            env["RUSTC_WORKSPACE_WRAPPER"] = "" if cfg["ws"] == "empty" else os.path.join(bind, "wrapper-ws")
        if cfg["target"] != "unset":
            env["TARGET"] = TARGETS[cfg["target"]]
        if cfg["flags"] != "unset":
            env["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(FLAGS[cfg["flags"]])
        cached = None
        for k, st in enumerate(x["hist"]):
            want = st["out"]
            ran = cached is None or cached["rerun"]
            if ran:
                e = dict(env)
                if st["boot"] != "unset":
                    e["RUSTC_BOOTSTRAP"] = st["boot"]
                p = subprocess.run([s.exe[cfg["std"]]], cwd=s.pkg, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, user=65534, group=65534,
                                   extra_groups=[], timeout=120)
                cached = directives(p.stdout.decode(errors="replace"))
                obs.append(cached)
                if p.returncode != 0:
                    bad.append((k, f"the script fails: {p.stderr.decode(errors='replace')[-300:]}"))
                    break
                left = [os.path.relpath(os.path.join(d, f), out) for d, ds, fs in os.walk(out) for f in ds + fs]
                if left and not (cfg["dir"] == "stale" and cfg["stage"] != "unset"):
                    bad.append((k, f"files left behind: {left}"))
                for cfgname in cached["cfgs"]:
                    if "=" not in cfgname and cfgname not in cached["declared"]:
                        bad.append((k, f"cfg {cfgname} is set but not declared"))
            if ran != st["ran"]:
                bad.append((k, f"reruns: specification {st['ran']}, implementation {ran}"))
            for o in ("gma", "std", "nobt", "rerun"):
                if cached[o] != want[o]:
                    bad.append((k, f"{o}: specification {want[o]}, implementation {cached[o]}"))
        # the compiler was called as Cargo would call it
        chain = ("w" if cfg["wrap"] not in ("unset", "empty") else "") + ("s" if cfg["ws"] not in ("unset", "empty") else "")
        log_ = os.path.join(base, "log")
        if os.path.exists(log_):
            for line in open(log_, errors="replace").read().split("\n"):
                if line.startswith("output outside"):
                    bad.append((0, "the probe writes outside OUT_DIR"))
                parts = line.split("\x1f")
                if parts[0] != "probe":
                    continue
                if parts[1] != chain:
                    bad.append((0, f"wrappers: called through {parts[1]!r}, in use {chain!r}"))
                if cfg["target"] != "unset" and TARGETS[cfg["target"]] not in [z.split("=")[-1] for z in parts]:
                    bad.append((0, "the probe is not compiled for the target in use"))
                want = FLAGS.get(cfg["flags"], [])
                if want and not any(parts[i:i + len(want)] == want for i in range(len(parts))):
                    bad.append((0, f"the probe is not compiled with the flags in use: {parts}"))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return bad, obs


WITNESS = """#![feature(error_generic_member_access)]
use std::error::{Error, Request}; use std::fmt;
#[derive(Debug)] pub struct A(pub u8);
impl fmt::Display for A { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a") } }
impl Error for A { fn provide<'a>(&'a self, r: &mut Request<'a>) { r.provide_ref::<u8>(&self.0); } }
pub fn ask(a: &A) -> Option<&u8> { std::error::request_ref::<u8>(a) }
"""


def real(c, s):
    """The same script with the compilers installed here; the oracle is whether a crate using the feature compiles."""
    env = base_env()
    tcs = [t.split()[0] for t in subprocess.run(["rustup", "toolchain", "list"], env=env, stdout=subprocess.PIPE).stdout.decode().splitlines()]
    wit = os.path.join(s.root, "witness.rs")
    open(wit, "w").write(WITNESS)
    n = 0

    def one(job):
        k, (tc, boot, flags, std) = job
        p = subprocess.run(["rustup", "which", "rustc", "--toolchain", tc], env=env, stdout=subprocess.PIPE)
        rustc = p.stdout.decode().strip()
        e = dict(env)
        e.pop("RUSTC_WRAPPER", None)
        if boot is not None:
            e["RUSTC_BOOTSTRAP"] = boot
        out = os.path.join(s.root, f"real{k}")
        os.makedirs(out)
        cmd = [rustc, "--edition=2018", "--crate-name=thiserror", "--crate-type=lib", "--emit=metadata", "--cap-lints=allow", "--out-dir", out, wit] + flags
        compiles = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        shutil.rmtree(out)
        os.makedirs(out)
        e.update(OUT_DIR=out, RUSTC=rustc, CARGO_ENCODED_RUSTFLAGS="\x1f".join(flags))
        p = subprocess.run([s.exe[std]], cwd=s.pkg, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        d = directives(p.stdout.decode())
        left = os.listdir(out)
        return (tc, boot, flags, std), compiles, d, left, p.returncode
    jobs = list(itertools.product(tcs, [None, "0", "1", "thiserror", "other"], [[], ["--cfg", "x"], ["-Zallow-features="]], ["on", "off"]))
    if c.tier == "quick":
        jobs = [j for j in jobs if j[3] == "on" or j[2] == []]
        jobs = c.rng.sample(jobs, min(len(jobs), 60))
    with ThreadPoolExecutor(NCPU) as ex:
        for job, compiles, d, left, rc in ex.map(one, enumerate(jobs)):
            n += 1
            key = f"real compiler {job}"
            if rc != 0:
                c.violation(key, f"the script fails with {rc}")
            elif d["gma"] != compiles:
                c.violation(key, f"generic member access: a crate using it compiles={compiles}, the script enables it={d['gma']}")
            elif d["nobt"] or d["std"]:
                c.violation(key, "a current compiler is taken for an old one")
            elif left:
                c.violation(key, f"files left behind: {left}")
    c.validated += n
    c.extra["real_compilers"] = dict(toolchains=tcs, runs=n)


def check(c):
    q = c.tier == "quick"
    xs = c.tlc("Build", dict(MaxDev=2, MaxHist=2), invariants=INV, tag="pairs", timeout=900).cases
    one = [x for x in xs if sum(x["cfg"][k] != v for k, v in DEFAULT.items()) <= 1]
    two = [x for x in xs if sum(x["cfg"][k] != v for k, v in DEFAULT.items()) > 1]
    cases = one + c.rng.sample(two, min(len(two), 3000)) if q else xs
    if not q:
        more = c.tlc("Build", dict(MaxDev=1, MaxHist=4), invariants=INV, tag="long", timeout=900).cases
        tri = c.tlc("Build", dict(MaxDev=4, MaxHist=1), invariants=INV, tag="four", timeout=900).cases
        cases = xs + more + c.rng.sample(tri, min(len(tri), 30000))
    c.extra["histories"] = dict(enumerated=len(xs), replayed=len(cases))
    s = Script(c)
    try:
        t0 = time.time()
        with ThreadPoolExecutor(NCPU) as ex:
            for (bad, obs), x in zip(ex.map(lambda a: replay(s, *a), enumerate(cases)), cases):
                c.validated += 1
                if bad and len(c.violations) < 100:
                    c.violation(json.dumps(x["cfg"]) + " " + "/".join(h["boot"] for h in x["hist"]), "; ".join(f"step {k}: {t}" for k, t in bad[:3]), x)
        log(f"replayed {len(cases)} histories in {time.time() - t0:.1f}s")
        if not c.violations:
            real(c, s)
    finally:
        s.close()
    for x in c.rng.sample(cases, 3):
        c.sample(x)
    c.assumptions += ["old compilers are represented by stand-ins that accept or refuse the probe by the API it mentions",
                      "a nightly compiler is taken to support unstable features whatever RUSTC_BOOTSTRAP says (-1 is not modelled: other crates of the build do not support it either)"]


DEFAULT = dict(stage="unset", chan="stable", api="new", wrap="unset", ws="unset", target="unset", flags="unset", std="on",
               version=["rustc", "1", "99", ".1 (abc 2026-01-01)"], dir="clean")
if __name__ == "__main__":
    main(check, "C17")
