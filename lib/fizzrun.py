"""Runs the real model checker (CLI binary) on a program and reads what it reports."""
import glob, json, os, re, resource, shutil, subprocess, tempfile
from . import fz, pb


MEM = 7 << 30


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class RunResult:
    pass


def write_spec(prog, d, fname="spec.json"):
    fn = os.path.join(d, fname)
    with open(fn, "w") as f:
        json.dump(fz.to_fizz(prog), f)
    return fn


def run(binary, prog, args=(), timeout=120, keep=None, files=None, test=True, spec=None, sub=""):
    """runs `binary` on prog in a scratch directory, returns RunResult(stdout, rc, nodes, links, verdict)"""
    d = keep or tempfile.mkdtemp(prefix="fzv")
    try:
        fn = write_spec(prog, d) if spec is None else spec(d)
        refines = [v for v in prog["invs"] if v["kind"] == "refines"] if prog else []
        for v in refines: write_spec(v["abs"], d, v["abs"]["name"] + ".json")
        if refines: sub = "_"
        for n, txt in (files or {}).items():
            with open(os.path.join(d, n), "w") as f: f.write(txt)
        out = os.path.join(d, "out")
        os.makedirs(out, exist_ok=True)
        cmd = [binary] + (["--test"] if test else []) + ["--output-dir", out] + [a.replace("@DIR@", d) for a in args] + [fn]
        r = RunResult()
        env = dict(os.environ); env.setdefault("GOMAXPROCS", "2")
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=d,
                               preexec_fn=limits)
            r.rc, r.out, r.err, r.timeout = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), False
        except subprocess.TimeoutExpired as e:
            r.rc, r.timeout = -1, True
            r.out, r.err = (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")
        out = os.path.join(out, sub)
        if not os.path.isdir(out): os.makedirs(out)
        if refines:
            # what is reported about the refining model comes after the reports about the abstract ones
            head, _, tail = r.out.partition("Model checking implementation spec (refined)")
            if tail: r.out = tail
        r.oom = "out of memory" in r.err or r.rc == -9
        r.nodes, r.links = read_graph(out, "nodes_[0-9]*.pb", "adjacency_lists_[0-9]*.pb")
        r.enodes, r.elinks = read_graph(out, "nodes_errors*.pb", "adjacency_lists_errors*.pb")
        r.files = sorted(os.listdir(out))
        eg = os.path.join(out, "error-graph.json")
        r.error_graph = open(eg).read() if os.path.exists(eg) else None
        r.text = {f: open(os.path.join(out, f)).read() for f in r.files if re.match(r"graph_run_\d+\.dot$", f)}
        r.dot = open(out + "/graph.dot").read() if os.path.exists(out + "/graph.dot") else None
        r.verdict = verdict(r)
        if refines and r.verdict[0] == "failed" and "Join hash not found" in r.out: r.verdict = ("transition", refines[0]["name"])
        return r
    finally:
        if keep is None:
            shutil.rmtree(d, ignore_errors=True)


def read_graph(out, npat, lpat):
    nf = sorted(glob.glob(os.path.join(out, npat)))
    lf = sorted(glob.glob(os.path.join(out, lpat)))
    if not nf: return None, None
    nodes, links = [], []
    for f in nf: nodes += pb.nodes(open(f, "rb").read())
    for f in lf: links += pb.links(open(f, "rb").read())[1]
    return [json.loads(n) for n in nodes], links


def verdict(r):
    o = r.out
    if r.timeout: return ("timeout",)
    if r.rc != 0 or "panic:" in r.err or "Stack Trace:" in o: return ("error", (r.err + o)[-1500:])
    if "DEADLOCK detected" in o: return ("deadlock",)
    m = re.search(r"FAILED: Model checker failed\. Transition Invariant: +(\w+)", o)
    if m: return ("transition", m.group(1))
    m = re.search(r"FAILED: Model checker failed\. Invariant: +(\w+)", o)
    if m: return ("always", m.group(1))
    if "FAILED: Expected states never reached" in o:
        return ("exists",) + tuple(sorted(re.findall(r"^Invariant \d+: (\w+)", o, re.M)))
    m = re.search(r"FAILED: Liveness check failed\s+Invariant: +(\w+)", o)
    if m: return ("liveness", m.group(1))
    if "PASSED: Model checker completed successfully" in o: return ("passed",)
    if "FAILED" in o: return ("failed", o[-500:])
    return ("unknown", o[-800:])
