"""Shared machinery of the checks: running TLC, rendering and running generated Rust, reporting.

Exit status of a check: 0 held on everything explored, 1 with a VIOLATION line, 2 for a tool error.
"""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
NIGHTLY = "nightly-2025-05-01"
STABLE = "stable"
JAVA = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]
NCPU = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


class TlcResult:
    def __init__(self):
        self.cases = []
        self.states = 0
        self.distinct = 0
        self.violation = None
        self.out_tail = ""
        self.coverage = []
        self.wall = 0.0


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_value(x) for x in v)) + "}"
    raise TypeError(v)


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{prop}-{self.seed}")
        base = os.environ.get("VERIF_WORK") or os.path.join(VERIF, ".work")
        self.work = os.path.join(base, prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.violations = []
        self.known_hits = []
        self.extra = {}
        self.assumptions = []
        self.known = load_known(prop)

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, consts=None, init="Init", next_="Next", spec=None, invariants=(), properties=(),
            constraints=(), simulate=None, depth=None, workers=NCPU, postcondition=None, tag="", timeout=600,
            emit=True, extra_files=(), allow_violation=False, view=None, coverage=False, action_constraints=()):
        name = module + (("_" + tag) if tag else "")
        d = os.path.join(self.work, "tlc_" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        for src, dst in extra_files:
            shutil.copy(src, os.path.join(d, dst))
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {next_}"]
        for k, v in (consts or {}).items():
            if isinstance(v, tuple) and v[0] == "op":
                cfg.append(f"CONSTANT {k} <- {v[1]}")
            else:
                cfg.append(f"CONSTANT {k} = {tla_value(v)}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for i in properties:
            cfg.append(f"PROPERTY {i}")
        for i in constraints:
            cfg.append(f"CONSTRAINT {i}")
        for i in action_constraints:
            cfg.append(f"ACTION_CONSTRAINT {i}")
        if view:
            cfg.append(f"VIEW {view}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        cfg.append("CHECK_DEADLOCK FALSE")
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = JAVA + ["-config", "MC.cfg", "-workers", str(workers), "-metadir", os.path.join(d, "meta")]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(self.seed)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(module + ".tla")
        t = time.time()
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC timed out on {name}")
        res = TlcResult()
        res.rc = rc
        res.wall = time.time() - t
        seen = set()
        tail = []
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"CASE '):
                    if emit:
                        body = json.loads(line)[5:]
                        h = hash(body)
                        if h not in seen:
                            seen.add(h)
                            res.cases.append(json.loads(body))
                    continue
                tail.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct", line)
                if m:
                    res.states, res.distinct = int(m[1]), int(m[2])
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    res.states = int(m[1])
                m = re.match(r"<(\w+) line .*>: (\d+):(\d+)", line)
                if m:
                    res.coverage.append((m[1], int(m[2]), int(m[3])))
        res.out_tail = "".join(tail[-60:])
        res.full = "".join(tail)
        if rc != 0:
            if re.search(r"Invariant \w+ is violated|is violated|Action property|Temporal properties were violated|Error: Postcondition", res.full):
                res.violation = res.full
                if not allow_violation:
                    raise ToolError(f"specification {name} violates its own invariant:\n{res.out_tail}")
            else:
                raise ToolError(f"TLC failed on {name} (rc {rc}):\n{res.out_tail}")
        if simulate:
            res.distinct = len(res.cases)  # simulation does not count distinct states; its distinct final ones are known
        self.states += res.distinct
        self.transitions += res.states
        log(f"tlc {name}: {res.states} transitions, {res.distinct} states, {len(res.cases)} cases, {res.wall:.1f}s")
        self.extra.setdefault("tlc_runs", []).append(
            dict(module=name, transitions=res.states, states=res.distinct, cases=len(res.cases), wall_s=round(res.wall, 1)))
        return res

    # ---- reporting ------------------------------------------------------------
    def violation(self, key, what, detail=None):
        """key identifies the failing case; a listed known finding with this key does not alarm."""
        for k in self.known:
            if k["match"] == key or (k["match"].endswith("*") and key.startswith(k["match"][:-1])):
                if k["id"] not in self.known_hits:
                    self.known_hits.append(k["id"])
                    print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
                return
        self.violations.append(dict(key=key, what=what, detail=detail))

    def sample(self, x, n=4):
        if len(self.samples) < n:
            self.samples.append(x)

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   samples=self.samples or ["none"])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{self.prop}: {self.states} states, {self.transitions} transitions, {self.validated} behaviours "
            f"validated, {len(self.violations)} violations, {ev['wall_s']}s")
        if self.violations:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump(self.violations[:50], f, indent=1)
            for v in self.violations[:8]:
                log("violation:", v["key"], "|", v["what"])
                if v.get("detail"):
                    log("   ", str(v["detail"])[:1500])
            print(f"VIOLATION property={self.prop} replay={os.path.relpath(path, VERIF)}", flush=True)
            sys.exit(1)
        old = os.path.join(VERIF, "replays", f"{self.prop}.json")
        if os.path.exists(old):
            os.remove(old)
        if self.validated == 0:
            log("nothing was validated against the implementation")
            sys.exit(2)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(0)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if m and m[1] == prop:
                out.append(dict(id=m[2], match=m[2], what=m[3].strip()))
    return out


def main(fn, prop, level="model_checking"):
    c = None
    try:
        c = Check(prop, level)
        fn(c)
        c.finish()
    except ToolError as e:
        log("tool error:", e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        import traceback
        traceback.print_exc()
        log("internal error", e)
        sys.exit(2)


# ---- Rust ------------------------------------------------------------------

def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP", "CARGO_TARGET_DIR", "RUST_BACKTRACE",
              "RUST_LIB_BACKTRACE", "RUSTUP_TOOLCHAIN", "RUSTDOCFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUSTC_WRAPPER"] = ""
    env["CARGO_INCREMENTAL"] = "0"
    return env


def rust_str(s):
    """A plain Rust string literal."""
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '"':
            out.append('\\"')
        elif ch == "\\":
            out.append("\\\\")
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\0":
            out.append("\\0")
        elif o < 32 or o == 127:
            out.append("\\u{%x}" % o)
        else:
            out.append(ch)
    return '"' + "".join(out) + '"'


class Case:
    """One replayable behaviour. `src` is a Rust item list (usually `mod cN {... pub fn run(o: &mut Out) }`),
    `call` the statement that runs it. Observations are printed as (key, value) lines and compared with `expect`."""
    __slots__ = ("id", "src", "call", "expect", "info")

    def __init__(self, id, src, call, expect, info=None):
        self.id, self.src, self.call, self.expect, self.info = id, src, call, expect, info


class RustRun:
    """Compiles cases in shards against the real thiserror and runs them."""

    def __init__(self, check, name, toolchain=NIGHTLY, header="", features_std=True, extra_deps="", shards=None,
                 flags="", crate_attrs="", release=False, synfull=False, run_env=None, support=True,
                 edition="2021"):
        self.c = check
        self.name = name
        self.toolchain = toolchain
        self.header = header
        self.features_std = features_std
        self.extra_deps = extra_deps
        self.shards = shards
        self.flags = flags
        self.crate_attrs = crate_attrs
        self.release = release
        self.synfull = synfull
        self.support = support
        self.edition = edition
        self.run_env = run_env or {}

    def write(self, cases, failing=()):
        d = os.path.join(self.c.work, "rs_" + self.name)
        os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
        for f in os.listdir(os.path.join(d, "src", "bin")):
            os.remove(os.path.join(d, "src", "bin", f))
        feat = "" if self.features_std else ", default-features = false"
        toml = f"""[package]
name = "gen"
version = "0.0.0"
edition = "{self.edition}"
publish = false
[dependencies]
thiserror = {{ path = "{REPO}"{feat} }}
{'support = { path = "%s/harness/support" }' % VERIF if self.support else ''}
{self.extra_deps}
"""
        if self.synfull:
            os.makedirs(os.path.join(d, "pm", "src"), exist_ok=True)
            with open(os.path.join(d, "pm", "src", "lib.rs"), "w") as f:
                f.write("extern crate proc_macro; use syn as _;\n#[proc_macro] pub fn nothing(_: proc_macro::TokenStream)"
                        " -> proc_macro::TokenStream { proc_macro::TokenStream::new() }\n")
            with open(os.path.join(d, "pm", "Cargo.toml"), "w") as f:
                f.write('[package]\nname = "pm"\nversion = "0.0.0"\nedition = "2021"\n[lib]\nproc-macro = true\n'
                        '[dependencies]\nsyn = { version = "2.0.87", features = ["full"] }\n')
            toml += 'pm = { path = "pm" }\n'
        toml += """[workspace]
[profile.dev]
debug = false
incremental = false
[profile.release]
debug = false
opt-level = 2
incremental = false
"""
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(toml)
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock.gen"), os.path.join(d, "Cargo.lock"))
        live = [c for c in cases if c.id not in failing]
        n = self.shards or max(1, min(NCPU, (len(live) + 149) // 150))
        if len(live) > 6000:
            n = (len(live) + 749) // 750
        self.line_map = {}
        for s in range(n):
            part = live[s::n]
            lines = []

            def put(text):
                lines.extend(text.split("\n"))
            put(self.crate_attrs)
            put("#![allow(dead_code, non_snake_case, non_camel_case_types, non_upper_case_globals, mixed_script_confusables, uncommon_codepoints, confusable_idents)]")
            put(self.header)
            ranges = []
            for c in part:
                a = len(lines) + 1
                put(c.src)
                ranges.append((a, len(lines), c))
            put("fn main() { support::run_all(&[")
            for c in part:
                a = len(lines) + 1
                put(f"  ({rust_str(c.id)}, |o: &mut support::Out| {{ {c.call} }}),")
                ranges.append((a, len(lines), c))
            put("]); }")
            self.line_map[f"s{s}.rs"] = ranges
            with open(os.path.join(d, "src", "bin", f"s{s}.rs"), "w") as f:
                f.write("\n".join(lines) + "\n")
        self.dir = d
        self.nshards = n
        return live

    def build(self, timeout=800):
        env = base_env()
        env["RUSTUP_TOOLCHAIN"] = self.toolchain
        # One target directory per toolchain and flag set inside the check's scratch folder.
        env["CARGO_TARGET_DIR"] = os.path.join(self.c.work, "target_" + self.name)
        if self.flags:
            env["RUSTFLAGS"] = self.flags
        cmd = ["cargo", "build", "--offline", "--message-format=json", "--keep-going", "-j", str(NCPU)]
        if self.release:
            cmd.append("--release")
        p = subprocess.run(cmd, cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        self.target = env["CARGO_TARGET_DIR"]
        diags = []
        for line in p.stdout.splitlines():
            if not line.startswith(b"{"):
                continue
            m = json.loads(line)
            if m.get("reason") == "compiler-message":
                diags.append((m.get("target", {}).get("src_path", ""), m["message"],
                              m.get("target", {}).get("name", "")))
        return p.returncode, diags, p.stderr.decode(errors="replace")

    def refused(self, cases, rounds=10):
        """The cases that compile although they are expected not to. Located errors are taken out until the rest compiles."""
        left = list(cases)
        for _ in range(rounds):
            if not left:
                return []
            self.write(left)
            env = base_env()
            env["RUSTUP_TOOLCHAIN"] = self.toolchain
            env["CARGO_TARGET_DIR"] = os.path.join(self.c.work, "target_" + self.name)
            if self.flags:
                env["RUSTFLAGS"] = self.flags
            p = subprocess.run(["cargo", "check", "--offline", "--message-format=json", "--keep-going", "-j", str(NCPU)] + (["--release"] if self.release else []), cwd=self.dir, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
            if p.returncode == 0:
                return left
            hit = set()
            for line in p.stdout.splitlines():
                if line.startswith(b"{"):
                    m = json.loads(line)
                    if m.get("reason") == "compiler-message" and m["message"].get("level", "").startswith("error"):
                        hit |= {z.id for z in self.locate(m["target"]["src_path"], m["message"])}
            if not hit:
                raise ToolError("cargo check failed: " + p.stderr.decode(errors="replace")[-2000:])
            left = [k for k in left if k.id not in hit]
        raise ToolError("errors remain")

    def locate(self, src_path, msg):
        """Cases a diagnostic points at."""
        found = []
        base = os.path.basename(src_path)
        ranges = self.line_map.get(base, [])

        def spans(m):
            for sp in m.get("spans", []):
                s = sp
                while s:
                    if os.path.basename(s["file_name"]) == base:
                        yield s["line_start"], bool(sp.get("is_primary"))
                    s = (s.get("expansion") or {}).get("span")
            for ch in m.get("children", []):
                yield from spans(ch)
        prim = [ln for ln, pr in spans(msg) if pr] or [ln for ln, _ in spans(msg)]
        for ln in prim:
            for a, b, c in ranges:
                if a <= ln <= b:
                    if c not in found:
                        found.append(c)
                    break
        return found

    def run(self, cases, on_compile_fail=None, max_rounds=4, timeout=800):
        """Returns {id: {key: value}}; compile failures are reported through on_compile_fail(case, message)."""
        failing = {}
        for rnd in range(max_rounds):
            self.write(cases, failing)
            rc, diags, err = self.build(timeout)
            if rc == 0:
                break
            new = {}
            unmapped = []
            for path, m, tgt in diags:
                if m.get("level") not in ("error", "error: internal compiler error"):
                    continue
                if m["message"].startswith("aborting due to") or "could not compile" in m["message"]:
                    continue
                cs = self.locate(path, m)
                if not cs:
                    unmapped.append(m.get("rendered") or m["message"])
                for c in cs:
                    if c.id not in failing:
                        new.setdefault(c.id, (c, m.get("rendered") or m["message"]))
            if not new:
                raise ToolError("build failed and no generated case is at fault:\n" + "\n".join(unmapped)[:3000] + err[-3000:])
            for i, (c, text) in new.items():
                failing[i] = text
                if on_compile_fail is None:
                    raise ToolError(f"case {i} does not compile: {text}")
                on_compile_fail(c, text)
        else:
            log("giving up compiling after several rounds; uncompiled cases are reported")
            return {}, failing
        return self.execute(), failing

    def execute(self, run_env=None):
        """Runs the programs already built."""
        results = {}
        prof = "release" if self.release else "debug"

        def exec_one(s):
            exe = os.path.join(self.target, prof, f"s{s}")
            e = base_env()
            e.update(self.run_env if run_env is None else run_env)
            try:
                return subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            except subprocess.TimeoutExpired:
                return None
        with ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(exec_one, range(self.nshards)))
        for s, p in enumerate(outs):
            if p is None:
                self.crashed = f"s{s}: timeout"
                for a, b, c in self.line_map[f"s{s}.rs"]:
                    results.setdefault(c.id, {"!crash": "timeout"})
                continue
            for line in p.stdout.decode(errors="replace").split("\n"):
                if not line:
                    continue
                try:
                    i, k, v = json.loads(line)
                except ValueError:
                    continue
                results.setdefault(i, {})[k] = v
            if p.returncode != 0:
                log(f"shard s{s} exited with {p.returncode}: {p.stderr.decode(errors='replace')[-500:]}")
                for a, b, c in self.line_map[f"s{s}.rs"]:
                    results.setdefault(c.id, {"!crash": f"exit {p.returncode}"})
        return results


def compare(check, cases, results, failing, keyf=None, max_report=200):
    n = 0
    for c in cases:
        if c.id in failing:
            continue
        got = results.get(c.id)
        if got is None:
            check.violation(c.id, "no observation recorded", c.info)
            continue
        n += 1
        if len(check.violations) >= max_report:
            continue
        for k, want in c.expect.items():
            have = got.get(k)
            if have != want:
                key = keyf(c, k) if keyf else c.id
                check.violation(key, f"{k}: specification {want!r}, implementation {have!r}",
                                dict(info=c.info, src=c.src, all=got))
                break
    check.validated += n
    return n


# ---- the derive, in-process ----------------------------------------------------

class InProc:
    """Drives the real derive of /repo/impl/src as a library (hook cfg thiserror_verif)."""

    def __init__(self, check, synfull=False, toolchain=STABLE):
        self.c = check
        env = base_env()
        env["RUSTUP_TOOLCHAIN"] = toolchain
        env["RUSTFLAGS"] = "--cfg=thiserror_verif"
        env["CARGO_TARGET_DIR"] = os.path.join(check.work, "target_inproc" + ("_full" if synfull else ""))
        cmd = ["cargo", "build", "--offline", "--locked", "-j", str(NCPU)] + (["--features", "synfull"] if synfull else [])
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness", "inproc"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise ToolError("building the in-process derive failed:\n" + p.stderr.decode(errors="replace")[-3000:])
        self.exe = os.path.join(env["CARGO_TARGET_DIR"], "debug", "inproc")

    def run(self, items, args=(), timeout=300, deadline=None):
        """items: [(id, source)] -> {id: (kind, messages, output)}"""
        n = max(1, min(NCPU, len(items) // 200 + 1))
        parts = [items[i::n] for i in range(n)]

        def one(part):
            data = "\n".join(json.dumps([i, s]) for i, s in part).encode() + b"\n"
            try:
                p = subprocess.run([self.exe, *args], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=timeout)
                return p.returncode, p.stdout
            except subprocess.TimeoutExpired as e:
                return -1, e.stdout or b""
        out = {}
        with ThreadPoolExecutor(NCPU) as ex:
            for part, (rc, so) in zip(parts, ex.map(one, parts)):
                for line in so.decode(errors="replace").split("\n"):
                    if line.startswith("["):
                        try:
                            i, k, m, t = json.loads(line)
                        except ValueError:
                            continue
                        out[i] = (k, m, t)
                if rc != 0:
                    for i, s in part:
                        if i not in out:
                            out[i] = ("crash", [f"exit {rc}"], "")
                            break
        return out
