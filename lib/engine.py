"""Runs the cases of a property: the specification (TLC) on one side, the real checker on the other."""
import json, os, random, re, resource, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build, compare, fizzrun, fz, joint, live, sim, sym, symgen, tla, trace, verdict

VERIF = build.VERIF
CORES = os.cpu_count() or 8


class Violation(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rnd = random.Random("%s/%d" % (prop, seed))
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.binary = None
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "programs": 0, "impl_runs": 0, "skipped_too_large": 0, "edges_by_kind": {}, "verdicts": {}}
        self.violations, self.known_hit = [], []
        self.known = load_known(prop)
        self.assumptions = []

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def count(self, d, k, n=1):
        self.cov.setdefault(d, {})
        self.cov[d][k] = self.cov[d].get(k, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 6: self.cov["samples"].append(s)

    # -------------------------------------------------------------- the specification
    def graphs(self, progs, cap=400, chunk=None, timeout=700):
        """specification graph of every program; None for those that are too large"""
        if not progs: return []
        n = 4 if len(progs) >= 8 else 1
        parts = [progs[i::n] for i in range(n)]
        def one(ps):
            info = {}
            gs = tla.graphs(ps, timeout=timeout, workers=2 if n > 1 else CORES, info=info, cap=cap)
            return gs, info
        with ThreadPoolExecutor(n) as ex: res = list(ex.map(one, parts))
        out = [None] * len(progs)
        for i, (gs, info) in enumerate(res):
            out[i::n] = gs
            self.cov["states"] += info["distinct"]
            self.cov["transitions"] += info["generated"]
        self.cov["programs"] += len(progs)
        self.cov["skipped_too_large"] += sum(g is None for g in out)
        return out

    # -------------------------------------------------------------- the real checker
    def run(self, prog, args=(), timeout=60, **kw):
        self.cov["impl_runs"] += 1
        r = fizzrun.run(self.binary, prog, args, timeout=timeout, **kw)
        r.prog, r.args = prog, list(args)
        return r

    def pmap(self, f, xs, n=None):
        with ThreadPoolExecutor(n or CORES) as ex: return list(ex.map(f, xs))

    def runs(self, progs, args=(), timeout=60, **kw):
        """one run per program, in parallel; a run that does not finish is repeated alone with a
        longer limit before it is judged"""
        rs = self.pmap(lambda p: self.run(p, args, timeout, **kw), progs)
        slow = [i for i, r in enumerate(rs) if r.timeout or r.oom]
        for i in slow[:2]: rs[i] = self.run(progs[i], args, 180, **kw)
        for i in slow[2:]: rs[i].verdict = ("unjudged",)
        return rs

    # -------------------------------------------------------------- results
    def violation(self, name, what, prog=None, **extra):
        for k in self.known:
            if k.get("match") and all(k["match"].get(x) == y for x, y in (("case", name),)):
                self.known_hit.append(k); return
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "%s_seed%d.json" % (name, self.seed))
        with open(fn, "w") as f:
            json.dump(dict({"property": self.prop, "case": name, "what": what, "program": prog,
                            "fizz_json": fz.to_fizz(prog) if prog else None}, **extra), f, indent=1, default=str)
        self.violations.append((name, what, fn))

    def evidence(self):
        cov = dict(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)


def load_known(prop):
    fn = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l and not l.startswith("fixed:") and not l.startswith("#"):
                k = json.loads(l)
                if k["property"] == prop: out.append(k)
    return out


# ------------------------------------------------------------------ graph conformance

def broken_run(ctx, p, g, r, name, suffix=""):
    """violation when the checker gives no answer on a program that has a behaviour for every state"""
    if r.verdict[0] == "unjudged": return True
    if r.verdict[0] == "timeout" or r.oom:
        ctx.violation(name, "the checker does not finish on a model with %d states%s" % (len(g.state), suffix), p); return True
    if r.verdict[0] in ("error", "unknown"):
        ctx.violation(name, "the checker fails on a valid model%s: %s" % (suffix, r.verdict[1]), p, stdout=r.out[-3000:], stderr=r.err[-3000:])
        return True
    return False


def graph_mismatch(g, p, r, args):
    """(None or what is wrong with the graph that was written, the graph)"""
    GS = compare.of_spec(g, p, rets=True, noret="--experimental_no_state_returns" in args)
    try:
        GI = compare.of_impl(r.nodes, r.links, p, rets=True)
        return compare.conforms(GI, GS), GI
    except compare.ImplError as e:
        return e, None


def conform(ctx, progs, args=(), cap=400, suffix="", gs=None, timeout=60):
    """the graph the checker explores is the graph of the specification"""
    gs = gs or ctx.graphs(progs, cap)
    todo = [(p, g) for p, g in zip(progs, gs) if g is not None]
    rs = ctx.runs([p for p, g in todo], args, timeout)
    for (p, g), r in zip(todo, rs):
        name = p["name"] + suffix.replace(" ", "_")
        if broken_run(ctx, p, g, r, name, suffix): continue
        if r.verdict != ("passed",):
            ctx.violation(name, "the checker reports %s on a model without assertions%s" % (r.verdict, suffix), p, stdout=r.out[-3000:]); continue
        if r.nodes is None:
            ctx.violation(name, "no state graph was written" + suffix, p, stdout=r.out[-3000:]); continue
        mm, GI = graph_mismatch(g, p, r, args)
        if mm is not None:
            ctx.violation(name, str(mm) + suffix, p); continue
        ctx.cov["traces_validated_against_impl"] += sum(len(e) for e in GI.edges.values())
        for es in GI.edges.values():
            for lab, d, _ in es:
                ctx.count("edges_by_kind", lab[0] + (" with choices" if lab[2] else ""))
        ctx.sample({"program": p["name"], "states": len(GI.proj), "transitions": sum(len(e) for e in GI.edges.values()),
                    "actions": [a["name"] for a in p["actions"]] + [r2["name"] for r2 in p["roles"]]})
    return gs


LIVE = (None, "", "enabled", "true", "strict", "strict/bfs")


def checks_liveness(p):
    return p["opts"].get("liveness") in LIVE and any(v["kind"] in live.KINDS for v in p["invs"])


def verdicts(ctx, progs, args=(), cap=400, suffix="", gs=None, timeout=60, compare_passed=True):
    """the verdict and the counterexample the checker reports are those of the specification"""
    gs = gs or ctx.graphs(progs, cap)
    todo = [(p, g) for p, g in zip(progs, gs) if g is not None]
    rs = ctx.runs([p for p, g in todo], args, timeout)
    lvs = ctx.pmap(lambda pg: live.decide(pg[1], pg[0]) if checks_liveness(pg[0]) else [], todo)
    def judge(x):
        (p, g), r, lv = x
        if r.verdict[0] in ("unjudged", "timeout", "error", "unknown") or r.oom: return None
        w = verdict.judge(g, p, r, None, lv, "--experimental_no_state_returns" in args)
        if w is None and r.verdict[0] == "liveness":
            i = [v["name"] for v in p["invs"]].index(r.verdict[1])
            w = "no counterexample files" if r.enodes is None else live.counterexample(g, p, i, r.enodes, r.elinks)
        if w is None and r.verdict == ("passed",) and compare_passed and r.nodes is not None:
            w, _ = graph_mismatch(g, p, r, args)
        return w
    ws = ctx.pmap(judge, list(zip(todo, rs, lvs)))
    for (p, g), r, w in zip(todo, rs, ws):
        name = p["name"] + suffix.replace(" ", "_")
        if broken_run(ctx, p, g, r, name, suffix): continue
        if w is not None:
            ctx.violation(name, str(w) + suffix, p, stdout=r.out[-3000:]); continue
        ctx.count("verdicts", r.verdict[0])
        n = len(r.elinks) if r.elinks else len(r.links or [])
        ctx.cov["traces_validated_against_impl"] += n
        if r.verdict[0] != "passed":
            ctx.sample({"program": p["name"], "verdict": list(r.verdict), "counterexample_steps": len(r.elinks or []),
                        "assertions": [[v["kind"], fz.star(v["e"])] for v in p["invs"]]})
    return gs


def nograph(ctx, progs, args=(), cap=400, gs=None, timeout=60):
    """verdicts, printed steps and number of states when the checker keeps no graph (which excludes
    crashes, exists and liveness assertions)"""
    progs = [dict(p, opts=dict(p["opts"], crash_on_yield=False), invs=[v for v in p["invs"] if v["kind"] in ("always", "transition")])
             for p in progs]
    gs = gs or ctx.graphs(progs, cap)
    todo = [(p, g) for p, g in zip(progs, gs) if g is not None]
    rs = ctx.runs([p for p, g in todo], ["--experimental_no_graph"] + list(args), timeout)
    us = ctx.runs([p for p, g in todo], args, timeout)
    for (p, g), r, u in zip(todo, rs, us):
        m = re.search(r"Unique states: (\d+)", u.out)
        w = verdict.judge_brief(g, p, r, int(m.group(1)) if m else None)
        if r.verdict[0] == "unjudged": continue
        if w is not None: ctx.violation(p["name"] + "_no_graph", w + " (keeping no graph)", p, stdout=r.out[-3000:], stderr=r.err[-3000:]); continue
        v, steps, n = verdict.brief(r)
        ctx.count("verdicts", "no graph: " + v[0])
        ctx.cov["traces_validated_against_impl"] += len(steps) if steps else n or 0
    return gs


def no_liveness(ctx, progs):
    """keeping no graph, the checker does not claim that liveness assertions hold"""
    for p, r in zip(progs, ctx.runs(progs, ["--experimental_no_graph"])):
        if r.timeout or r.oom: continue
        if "PASSED" in r.out or "PASSED" in r.err:
            ctx.violation(p["name"] + "_no_graph", "success is reported for liveness assertions that were not checked (keeping no graph)", p, stdout=r.out[-2000:])
        else: ctx.count("verdicts", "no graph: refused")


def simulate(ctx, progs, seeds, cap=400, gs=None, cover=0, repeat=0):
    """simulated runs are behaviours of the specification and report what they meet; the first `cover`
    programs with few first steps: every first step is simulated; `repeat` programs: a seed
    determines the run"""
    gs = gs or ctx.graphs(progs, cap)
    todo = [(p, g) for p, g in zip(progs, gs) if g is not None]
    def one(x):
        k, (p, g) = x
        GS, E = sim.spec_graph(g, p), verdict.expected(g, p)
        first, taken, n, res = sim.first_steps(GS), set(), 0, {}
        ss = list(seeds)
        if k < cover and len(first) in (2, 3, 4): ss += [ss[-1] + 7 * j for j in range(1, 80)]
        for s in ss:
            if taken >= first and s not in seeds: break
            r = ctx.run(p, ["--simulation", "--seed", str(s)])
            if r.timeout or r.oom: return p, "a simulated run does not finish (seed %d)" % s, n, res
            w, m = sim.judge(g, p, r, GS, E)
            if w: return p, "%s (simulated with seed %d)" % (w, s), n, res
            if k < repeat and s == ss[0]:
                r2 = ctx.run(p, ["--simulation", "--seed", str(s)])
                if sim.shown(r) != sim.shown(r2): return p, "two simulated runs with seed %d differ" % s, n, res
            taken |= sim.taken(r, p) if len(ss) > len(seeds) else set()
            v = sim.outcome(r)[0]; res[v] = res.get(v, 0) + 1; n += m
        if len(ss) > len(seeds) and not taken >= first and "stopped" in res and len(res) == 1:
            return p, "of the first steps %s only %s are ever simulated" % (sorted(first), sorted(taken)), n, res
        return p, None, n, res
    for p, w, n, res in ctx.pmap(one, list(enumerate(todo))):
        for v in res: ctx.count("verdicts", "simulated: " + v, res[v])
        ctx.cov["traces_validated_against_impl"] += n
        if w: ctx.violation(p["name"] + "_simulated", w, p)
    return gs


def simulate_many(ctx, progs, runs, cap=400):
    """many runs at once: every one of them is written; a reported seed reproduces the failure"""
    gs = ctx.graphs(progs, cap)
    todo = [(p, g) for p, g in zip(progs, gs) if g is not None]
    def one(x):
        p, g = x
        GS, E = sim.spec_graph(g, p), verdict.expected(g, p)
        r = ctx.run(p, ["--simulation", "--max_runs", str(runs), "--simulation_first_traces", str(runs)])
        if r.timeout or r.oom: return p, "simulated runs do not finish", 0
        n, w, v = 0, None, sim.outcome(r, runs)
        dots = [r.text.get("graph_run_%d.dot" % i) for i in range(1, runs + 1)]
        for i, d in enumerate(dots):
            if d is None: continue
            try:
                GI = sim.graph(d, p)
                mm = sim.included(GI, GS)
                n += sum(len(e) for e in GI.edges.values())
            except compare.ImplError as e: mm = e
            if mm: return p, "%s (simulated run %d)" % (mm, i + 1), n
        if v == ("stopped",):
            if None in dots: return p, "simulated run %d is not written" % (dots.index(None) + 1), n
            if len(sim.first_steps(GS)) > 1 and len(set(map(sim.stable, dots))) == 1 and runs >= 30: return p, "all simulated runs are the same", n
            return p, None, n
        m = re.search(r"^seed: (\d+)$", r.out, re.M)
        if not m: return p, "%s without the seed" % (v,), n
        w, k = sim.judge(g, p, r, GS, E, v)
        if w: return p, "%s (simulated with seed %s)" % (w, m.group(1)), n
        r2 = ctx.run(p, ["--simulation", "--seed", m.group(1)])
        if sim.outcome(r2) != v or sim.shown(r2, False) != sim.shown(r, False):
            return p, "the simulated failure %s with seed %s is not reproduced: %s" % (v, m.group(1), sim.outcome(r2)), n
        return p, None, n + k
    for p, w, n in ctx.pmap(one, todo):
        ctx.cov["traces_validated_against_impl"] += n
        if w: ctx.violation(p["name"] + "_simulated", w, p)


def simulate_live(ctx, progs, seeds, all_programs=(), cap=400):
    """liveness assertions that hold are not reported by simulated runs; those of all_programs even
    where single actions are left out for ever (where the simulation has to know about fairness)"""
    gs = ctx.graphs(progs, cap)
    todo = []
    for p, g in zip(progs, gs):
        if g is None: continue
        ls = [i for i, v in enumerate(p["invs"]) if v["kind"] in live.KINDS]
        if p["name"] in all_programs and all(h1 and h2 for _, h1, h2 in live.decide(g, p)) or all(sim.safe(g, p, i) for i in ls): todo.append((p, g))
    def one(x):
        p, g = x
        for s in seeds:
            r = ctx.run(p, ["--simulation", "--seed", str(s)])
            v = sim.outcome(r)
            if v[0] in ("timeout",): continue
            if v != ("stopped",): return p, s, v
        return p, None, None
    for p, s, v in ctx.pmap(one, todo):
        ctx.count("verdicts", "simulated: liveness holds")
        if s is not None:
            ctx.violation(p["name"] + ("_unfair_cycle" if v[0] == "always" and p["name"] in all_programs else "_simulated"), "a simulated run with seed %d reports %s although the assertion holds" % (s, v), p)


def guided(ctx, progs, per=3, cap=400, length=6):
    """guided traces: the checker explores what the trace selects from the specification, says whether
    the trace can be executed to its end, and reports the violations on it"""
    progs = [dict(p, cfg=p) for p in progs]
    cs = [trace.config(p) for p in progs]
    gs = ctx.graphs(cs, cap)
    jobs = []
    for p, c, g in zip(progs, cs, gs):
        if g is None: continue
        for k in range(per):
            t, sk = trace.walk(ctx.rnd, g, c, ctx.rnd.randrange(0, length + 1) if k else length)
            if t is None: continue
            jobs.append((p, c, g, t, 0, None))
            b = trace.blocked(ctx.rnd, g, c, sk)
            if b: jobs.append((p, c, g, t + [b], 0, len(t)))
            u = list(t); pos = ctx.rnd.randrange(len(u) + 1); u.insert(pos, "NoSuchStep")
            if k % 2: jobs.append((p, c, g, u, 0, "max"))
            elif t:
                # almost a step: a step cut short or drawn out
                u = list(t); pos = ctx.rnd.randrange(len(u))
                u[pos] = ctx.rnd.choice([u[pos] + x for x in ("0", "x")] + [u[pos][:-1], u[pos][:-1]])
                if u[pos]: jobs.append((p, c, g, u, 0, "near"))
            if t and k % 2 == 0: jobs.append((p, c, g, t[:-1], 0, None))
            if t or g.init and not any(o["tr"] for o in g.init): jobs.append((p, c, g, t, 1, None))
            if not any(e["tr"] for es in g.edges.values() for e in es) and not any(o["tr"] for o in g.init): jobs.append((p, c, g, t, ctx.rnd.choice((2, 3)), None))
    def one(x):
        i, (p, c, g, t, ext, want) = x
        if not t and not ext: return p, None, t, ext, 0
        G, best = trace.product(g, c, t, ext)
        if not G.init: return p, None, t, ext, 0
        if want == "near": want = None if best == len(t) else "max"
        args = (["--trace-extend", str(ext)] if ext else [])
        kw = {}
        if t and i % 6 == 1: args += ["--trace", "\n  # first\n%s\n\n\t# last\n" % "\n \n".join(l + "  " for l in t)]
        elif t and i % 3: args += ["--trace", "\n".join(t)]
        elif t:
            args += ["--trace-file", "@DIR@/steps.txt"]
            kw = {"files": {"steps.txt": "# steps\n\n" + "\n".join("  %s " % l if j % 2 else l + "\n  # then" if i % 2 else l for j, l in enumerate(t)) + "\n"}}
        r = ctx.run(p["cfg"], args, **kw)
        if r.timeout or r.oom: return p, "the checker does not finish", t, ext, 0
        c2 = dict(c, invs=[v if v["kind"] in ("always", "transition") else dict(v, kind="none") for v in c["invs"]])
        E = verdict.expected(G, c2)
        m = re.search(r"^WARNING: Trace execution incomplete. Expected (\d+) links, executed (\d+) links", r.out, re.M)
        if m and r.verdict[0] == "unknown":
            if E.must_fail: return p, "the violation on the trace is not reported", t, ext, 0
            if best == len(t) and want is None: return p, "the trace can be executed, but is reported as incomplete: %s" % m.group(0), t, ext, 0
            if int(m.group(1)) != len(t) or (int(m.group(2)) != want if isinstance(want, int) else int(m.group(2)) < best):
                return p, "%s; but it is the step after %d of %d that is blocked" % (m.group(0), want if isinstance(want, int) else best, len(t)), t, ext, 0
            return p, None, t, ext, 1
        if want is not None and r.verdict == ("passed",): return p, "the trace cannot be executed, but is not reported as incomplete", t, ext, 0
        w = verdict.judge(G, c2, r, E)
        if w: return p, w, t, ext, 0
        if r.verdict != ("passed",): return p, None, t, ext, len(r.elinks)
        mm, GI = graph_mismatch(G, c, r, args)
        return p, str(mm) if mm else None, t, ext, len(r.links)
    for p, w, t, ext, n in ctx.pmap(one, list(enumerate(jobs))):
        ctx.count("verdicts", "guided")
        ctx.cov["traces_validated_against_impl"] += n
        if w: ctx.violation(p["name"] + "_guided", "%s (trace %s%s)" % (w, t, ", extended by %d" % ext if ext else ""), p)


def symmetric(ctx, progs, args=(), cap=4000):
    """with symmetry reduction the checker explores the graph of the specification up to renaming of
    symmetric values and roles, every class of states once, and reports what holds in it; without
    reduction it explores all of it"""
    gs = ctx.graphs(progs, cap)
    todo = [(p, g) for p, g in zip(progs, gs) if g is not None]
    full = "--no-symmetry-reduction" in args
    suffix = "_full" if full else ""
    rs = ctx.runs([p for p, g in todo], args)
    def judge(x):
        (p, g), r = x
        if r.verdict[0] in ("unjudged", "timeout", "error", "unknown") or r.oom: return None, 0
        E = verdict.expected(g, p)
        w = verdict.mismatch(E, p, r.verdict)
        if w: return "the checker reports %s, but the specification demands %s" % (r.verdict, w), 0
        GS = sym.SymSpec(g, p)
        try:
            if r.verdict == ("passed",):
                if r.nodes is None: return "no state graph was written", 0
                GI = sym.graph(p, r.nodes, r.links)
                mm = compare.conforms(GI, GS, ignore_choices=p["blind"], choice=sym.choice(p))
                if mm: return str(mm), 0
                if not full:
                    cs = sym.classes(GS, GI)
                    if cs: return "the states differ only by a renaming, but both are explored: %s and %s" % tuple(GI.proj[i] for i in cs[0]), 0
                w = sym.start(p, r.nodes)
                return w, sum(len(e) for e in GI.edges.values())
            if r.enodes is None: return None if r.verdict[0] == "exists" else "no counterexample files", 0
            GI = sym.graph(p, r.enodes, r.elinks, wit=False)
            GS = sym.SymSpec(g, p, wit=False)
            mm = compare.conforms(GI, GS, only_allowed=True, ignore_choices=p["blind"], choice=sym.choice(p))
            if mm: return "the counterexample is not a behaviour: %s" % mm, 0
            bad = E.deadstates | E.maybe if r.verdict == ("deadlock",) else E.always.get(r.verdict[1], set()) if r.verdict[0] == "always" else None
            if bad is not None and not any(GS.match(sk, q) for q in GI.proj.values() for sk in bad):
                return "no state of the counterexample of %s shows the violation" % (r.verdict,), 0
            return None, len(r.elinks)
        except compare.ImplError as e:
            return str(e), 0
    for (p, g), r, (w, n) in zip(todo, rs, ctx.pmap(judge, list(zip(todo, rs)))):
        if broken_run(ctx, p, g, r, p["name"] + suffix, suffix): continue
        ctx.cov["traces_validated_against_impl"] += n
        ctx.count("verdicts" + suffix, r.verdict[0])
        if w: ctx.violation(p["name"] + suffix, w, p, stdout=r.out[-3000:])
    return gs


def small(ctx, cs, parts, cap):
    """those of cs whose parts have at most cap states"""
    ps = [q for c in cs for q in parts(c)]
    ok = iter([g is not None for g in ctx.graphs(ps, cap)])
    return [c for c in cs if all([next(ok) for q in parts(c)])]


def composition(ctx, cs, args=()):
    """a step of the parts together that violates an assertion is reported, and nothing else is"""
    ws = joint.decide(cs)
    def one(cw):
        r = joint.run_composition(ctx.binary, cw[0], args)
        return r, joint.judge_composition(*cw, r)
    for c, w, (r, bad) in zip(cs, ws, ctx.pmap(one, list(zip(cs, ws)))):
        ctx.cov["impl_runs"] += 1
        if r.timeout or r.oom:
            r = joint.run_composition(ctx.binary, c, args, timeout=240)
            if r.oom: continue
            bad = joint.judge_composition(c, w, r)
        if bad:
            ctx.violation(c["name"], bad + "".join(" (%s)" % a.replace("--", "") for a in args[:1]), None, composition=c, stdout=r.out[-3000:], stderr=r.err[-2000:]); continue
        ctx.cov["programs"] += 1
        ctx.cov["transitions"] += w[0]
        ctx.cov["traces_validated_against_impl"] += w[0]
        ctx.count("verdicts", "composition fails" if w[1] else "composition holds")
        ctx.sample({"composition": c["name"], "joint steps": w[0], "violations": len(w[1])})


def run_check(prop, fn, tier, seed):
    """returns the exit code of the check"""
    ctx = Ctx(prop, tier, seed)
    try:
        ctx.binary = build.build()
    except build.BuildError as e:
        print("cannot build: %s" % e); return 2
    try:
        fn(ctx)
        if not ctx.violations and not ctx.cov["traces_validated_against_impl"]:
            raise tla.ToolError("nothing was compared")
    except tla.ToolError as e:
        print("tool error: %s" % e); return 3
    ctx.evidence()
    for k in {json.dumps(k, sort_keys=True): k for k in ctx.known_hit}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for name, what, fn in ctx.violations[:10]:
        print("--- %s: %s" % (name, what[:3000]))
    if len(ctx.violations) > 10: print("... %d more" % (len(ctx.violations) - 10))
    c = ctx.cov
    print("%s %s seed=%d: %d programs, %d states, %d transitions in the specification; %d checker runs, %d steps compared; %.0f s"
          % (prop, tier, seed, c["programs"], c["states"], c["transitions"], c["impl_runs"], c["traces_validated_against_impl"],
             time.time() - ctx.t0))
    if ctx.violations:
        for name, what, fn in ctx.violations: print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    return 0
