"""C07: chains of errors, replayed from the specification and recorded from random executions."""
from vlib import *


def build(c):
    d = os.path.join(VERIF, "harness", "chain")
    env = base_env()
    env["RUSTUP_TOOLCHAIN"] = NIGHTLY
    env["CARGO_TARGET_DIR"] = os.path.join(c.work, "target_chain")
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    err = p.stderr.decode(errors="replace")
    if p.returncode != 0:
        if "could not compile `chain`" in err:
            c.violation("layers", "the layer types, all of them legal declarations, do not compile", err[-4000:])
            c.validated += 1
            return None
        raise ToolError("building the chain program failed:\n" + err[-3000:])
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", "chain")


def replay(c, exe, cases):
    n = max(1, min(NCPU, len(cases) // 500 + 1))

    def one(s):
        data = "\n".join(f"{i} " + " ".join(cases[i]["c"]) for i in range(s, len(cases), n)) + "\n"
        return subprocess.run([exe], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=base_env(), timeout=600)
    got = {}
    with ThreadPoolExecutor(n) as ex:
        for p in ex.map(one, range(n)):
            for line in p.stdout.decode().split("\n"):
                if line:
                    i, t, b, g = line.split("|")
                    got[int(i)] = (t, int(b), int(g))
            if p.returncode:
                c.violation("crash", "building or walking a chain crashed", p.stderr.decode(errors="replace")[-1500:])
    for i, x in enumerate(cases):
        if i not in got or len(c.violations) > 100:
            continue
        want = (" ".join(x["t"]), x["b"], x["g"])
        if got[i] != want:
            c.violation(" ".join(x["c"]), f"(texts, backtrace, other request): specification {want}, implementation {got[i]}", x)
    c.validated += len(got)


def check(c):
    q = c.tier == "quick"
    inv = ["WalkIsTheShownLayers", "AnswerIsReachable", "InnermostWins"]
    xs = c.tlc("ChainGen", dict(MaxDepth=2, Pick="all"), invariants=inv, properties=["Persists"], tag="all").cases
    xs += c.tlc("ChainGen", dict(MaxDepth=4 if q else 5, Pick="few"), invariants=inv, properties=["Persists"], tag="few", timeout=900).cases
    if not q:
        xs += c.tlc("ChainGen", dict(MaxDepth=3, Pick="all"), invariants=inv, tag="all3", timeout=900).cases
    xs += c.tlc("ChainGen", dict(MaxDepth=40, Pick="all"), invariants=inv, tag="deep", simulate=300 if q else 3000, depth=45, timeout=900).cases
    xs.sort(key=lambda x: x["c"])
    exe = build(c)
    if exe is None:
        return
    replay(c, exe, xs)
    c.extra["chains_replayed"] = len(xs)
    # executions recorded from the real types, validated as behaviours of the specification
    leaves = re.search(r"Leaves == \[(.*?)\]\n", open(os.path.join(VERIF, "spec", "Chain.tla")).read(), re.S)[1]
    kinds = re.search(r"\nKinds == \[(.*?)\]\n", open(os.path.join(VERIF, "spec", "Chain.tla")).read(), re.S)[1]
    names = lambda t: ",".join(re.findall(r"(\w+) \|->", t))
    traces = 0
    for k in range(2 if q else 8):
        count, depth = [(60, 12), (25, 60), (6, 200), (400, 5)][k % 4]
        p = subprocess.run([exe, str(c.seed * 7919 + k * 104729 + 1), str(count), str(depth), names(leaves), names(kinds)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=base_env(), timeout=600)
        if p.returncode:
            c.violation("crash", "building or walking a random chain crashed", p.stderr.decode(errors="replace")[-1500:])
            continue
        f = os.path.join(c.work, f"trace{k}.ndjson")
        open(f, "wb").write(p.stdout)
        r = c.tlc("ChainTrace", tag=f"t{k}", workers=1, extra_files=[(f, "trace.ndjson")], postcondition="Accepted", allow_violation=True)
        ev = p.stdout.decode().strip().split("\n")
        if r.violation:
            at = r.distinct - 1 if r.distinct else 0
            start = max(j for j in range(at + 1) if json.loads(ev[j])["start"]) if at < len(ev) else 0
            c.violation(f"trace-{k}", "a recorded execution is not a behaviour of the specification; it departs at the last step shown",
                        [json.loads(x) for x in ev[start:at + 1]])
        else:
            traces += count
            c.validated += len(ev)
    c.extra["recorded_traces_validated"] = traces
    for x in c.rng.sample(xs, 4):
        c.sample(dict(steps=x["c"], texts=x["t"], backtrace_of=x["b"]))


if __name__ == "__main__":
    main(check, "C07")
