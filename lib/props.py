"""What is run for each property."""
from . import asserts, bounds, corpus, engine, gen, joint, symgen, trace

CHECKS = {}


def check(p):
    def reg(f): CHECKS[p] = f; return f
    return reg


def randoms(ctx, profs, n, **over):
    out = []
    for prof in profs:
        for i in range(n):
            out.append(gen.program(ctx.rnd, prof, "%s_%d" % (prof, len(out)), **over))
    return out


def semantics(ctx, topics, profs, n):
    ps = [p for t in topics for p in corpus.topic(t)]
    engine.conform(ctx, ps, cap=4000)
    if ctx.thorough:
        while ctx.left(600) > 0:
            engine.conform(ctx, randoms(ctx, profs, 120 // len(profs)), cap=1500)
            if ctx.violations: break
    else:
        engine.conform(ctx, randoms(ctx, profs, n // len(profs)))


@check("P01")
def p01(ctx): semantics(ctx, ["atomic"], ["atomic"], 240)


@check("P02")
def p02(ctx): semantics(ctx, ["serial"], ["serial"], 200)


@check("P03")
def p03(ctx): semantics(ctx, ["choice"], ["choice"], 240)


@check("P04")
def p04(ctx): semantics(ctx, ["parallel"], ["parallel"], 160)


@check("P05")
def p05(ctx): semantics(ctx, ["control"], ["loops"], 220)


@check("P06")
def p06(ctx): semantics(ctx, ["roles"], ["roles"], 200)


@check("P07")
def p07(ctx): semantics(ctx, ["crash"], ["crash", "crashflat", "crashpar"], 200)


ALLPROFS = ["atomic", "serial", "choice", "parallel", "loops", "roles", "crash", "crashflat"]


def asserted(ctx, topic, kinds, n, profs=ALLPROFS, **opts):
    """hand-written and random programs with assertions: verdict, counterexample, witnesses"""
    engine.verdicts(ctx, asserts.CORPUS[topic](), cap=4000)
    def some(k):
        ps = randoms(ctx, profs, k)
        if kinds: return [asserts.decorate(ctx.rnd, p, kinds, deadlock_detection=False) for p in ps]
        return [dict(p, opts=dict(p["opts"], **opts)) for p in ps]
    engine.verdicts(ctx, some(n // len(profs)))
    while ctx.thorough and ctx.left(600) > 0 and not ctx.violations:
        engine.verdicts(ctx, some(200 // len(profs)), cap=1500)


@check("P08")
def p08(ctx): asserted(ctx, "always", ["always", "always", "always", "exists"], 320)


@check("P09")
def p09(ctx): asserted(ctx, "transition", ["transition"], 320)


@check("P10")
def p10(ctx): asserted(ctx, "exists", ["exists", "exists", "exists", "always"], 320)


@check("P11")
def p11(ctx): asserted(ctx, "deadlock", None, 320, ALLPROFS + ["atomic", "serial", "atomic"], deadlock_detection=True)


@check("P12")
def p12(ctx):
    """liveness"""
    engine.verdicts(ctx, asserts.CORPUS["live"](), cap=4000)
    def some(k):
        return [asserts.live(ctx.rnd, p, deadlock_detection=False) for p in randoms(ctx, ALLPROFS + ["messages"], k, data=0.0)]
    engine.verdicts(ctx, some(12), cap=80)
    while ctx.thorough and ctx.left(600) > 0 and not ctx.violations:
        engine.verdicts(ctx, some(15), cap=150)


# P15: ways of exploring that must not change the outcome
MODES = [["--exploration_strategy", "dfs"], ["--exploration_strategy", "random", "--seed", "@SEED@"],
         ["--experimental_processed_queue"], ["--experimental_processed_queue", "--exploration_strategy", "dfs"],
         ["--experimental_processed_queue", "--exploration_strategy", "random", "--seed", "@SEED@"],
         ["--experimental_no_state_returns"], ["--experimental_no_state_returns", "--experimental_processed_queue"]]


def unbounded(p):
    """depth first and random exploration reach states on long paths, too: no bound may cut them"""
    return p if p.get("track") else dict(p, opts=dict({"max_actions": 100000, "max_concurrent_actions": 2}, **p["opts"]))


@check("P15")
def p15(ctx):
    """independence of the outcome of how the states are explored"""
    def modes(k):
        out = [[a.replace("@SEED@", str(ctx.rnd.randrange(1, 10 ** 6))) for a in m] for m in MODES]
        return out if k is None else ctx.rnd.sample(out, k)
    def graphs(ps, k, cap):
        ps = [unbounded(p) for p in ps]
        gs = ctx.graphs(ps, cap)
        for m in modes(k): engine.conform(ctx, ps, m, gs=gs, suffix=" (%s)" % " ".join(m).replace("--", ""))
    def judged(ps, k, cap, live=None):
        ps = [unbounded(p) for p in ps]
        gs = ctx.graphs(ps, cap)
        for m in modes(k) if live is None else live: engine.verdicts(ctx, ps, m, gs=gs, suffix=" (%s)" % " ".join(m).replace("--", ""))
    def decorated(n):
        kinds = [["always", "exists"], ["transition"], ["always", "transition"], None]
        ps = randoms(ctx, ALLPROFS, n)
        return [asserts.decorate(ctx.rnd, p, kinds[i % 4], deadlock_detection=False) if kinds[i % 4] else
                dict(p, opts=dict(p["opts"], deadlock_detection=True)) for i, p in enumerate(ps)]
    cs = [p for t in corpus.TOPICS for p in corpus.topic(t)]
    vs = [p for t in ("always", "transition", "exists", "deadlock") for p in asserts.CORPUS[t]()]
    t = ctx.thorough
    graphs(cs if t else cs[ctx.seed % 2::2], None if t else 4, 4000)
    judged(vs, None if t else 3, 4000)
    engine.nograph(ctx, cs + vs if t else vs + cs[::4], cap=4000)
    ls = asserts.CORPUS["live"]()
    judged(ls if t else ctx.rnd.sample(ls, 20), None, 4000, [m for m in modes(None)[:5] if t or m[0] == "--experimental_processed_queue"][:2 if not t else 5])
    engine.no_liveness(ctx, ls if t else ls[ctx.seed % 5::5])
    while True:
        graphs(randoms(ctx, ALLPROFS, 12), 3, 400)
        d = decorated(12)
        judged(d, 3, 400)
        engine.nograph(ctx, decorated(12), cap=400)
        if not t or ctx.violations or ctx.left(600) < 0: break


@check("P13")
def p13(ctx):
    """exploration bounds"""
    def judged(ps, cap):
        gs = ctx.graphs(ps, cap)
        cs = [None if g is None else bounds.collapse(g, p) for g, p in zip(gs, ps)]
        exact = [c[0] if c and c[1] else None for c in cs]
        inexact = [c[0] if c and not c[1] else None for c in cs]
        ctx.count("verdicts", "exact", sum(g is not None for g in exact))
        engine.verdicts(ctx, ps, gs=exact)
        engine.conform(ctx, [dict(p, invs=[], opts=dict(p["opts"], deadlock_detection=False)) for p in ps], gs=inexact)
    judged(corpus.bounded(), 4000)
    engine.conform(ctx, corpus.limited(), cap=4000)
    def some(k):
        out = []
        for i, p in enumerate(randoms(ctx, ["atomic", "choice", "roles", "serial"], k)):
            d = ctx.rnd.randrange(1, 6)
            p = dict(p, opts=dict(p["opts"], max_actions=d, crash_on_yield=False), track=True)
            out.append(asserts.decorate(ctx.rnd, p, [["always"], ["exists"], ["transition"]][i % 3], deadlock_detection=False) if i % 4
                       else dict(p, opts=dict(p["opts"], deadlock_detection=True)))
        return out
    judged(some(50), 600)
    while ctx.thorough and ctx.left(600) > 0 and not ctx.violations: judged(some(60), 2000)


@check("P16")
def p16(ctx):
    """simulation"""
    t = ctx.thorough
    def seeds(n):
        s = ctx.rnd.randrange(1, 10 ** 6)
        return [s + i for i in range(n)]
    cs = [p for k in corpus.TOPICS for p in corpus.topic(k)]
    vs = [p for k in ("always", "transition", "deadlock") for p in asserts.CORPUS[k]()]
    engine.simulate(ctx, cs, seeds(30 if t else 5), cap=4000, cover=len(cs), repeat=len(cs) if t else 60)
    engine.simulate(ctx, vs, seeds(60 if t else 10), cap=4000, repeat=len(vs))
    bs = corpus.bounded() if t else corpus.bounded()[ctx.seed % 3::3]
    gb = [None if g is None else bounds.collapse(g, p) for p, g in zip(bs, ctx.graphs(bs, 4000))]
    engine.simulate(ctx, bs, seeds(12 if t else 4), gs=[c[0] if c and c[1] else None for c in gb], repeat=len(bs) if t else 10)
    engine.simulate_many(ctx, cs[ctx.seed % 9::9] + vs[ctx.seed % 4::4], 100 if t else 30, cap=4000)
    engine.simulate_live(ctx, asserts.CORPUS["live"](), seeds(60 if t else 10), ["role_choice_weak_weak", "choose_strong_strong"], cap=4000)
    while True:
        ps = randoms(ctx, ALLPROFS, 6)
        ps = [asserts.decorate(ctx.rnd, p, [["always"], ["transition"]][i % 2], deadlock_detection=False) if i % 3 else
              dict(p, opts=dict(p["opts"], deadlock_detection=True)) for i, p in enumerate(ps)]
        engine.simulate(ctx, ps, seeds(8), repeat=10)
        if not t or ctx.violations or ctx.left(600) < 0: break


@check("P17")
def p17(ctx):
    """guided traces"""
    t = ctx.thorough
    cs = [p for k in corpus.TOPICS for p in corpus.topic(k) if p["name"] != "par_bits6"]  # (paths are not merged on a trace)
    vs = [p for k in ("always", "transition") for p in asserts.CORPUS[k]()]
    engine.guided(ctx, trace.corpus(), 12, cap=2000)
    engine.guided(ctx, cs, 6 if t else 2, cap=2000)
    engine.guided(ctx, vs, 9 if t else 3, cap=2000)
    while True:
        ps = randoms(ctx, ALLPROFS, 5)
        ps = [asserts.decorate(ctx.rnd, p, [["always"], ["transition"]][i % 2], deadlock_detection=False) if i % 3 else p for i, p in enumerate(ps)]
        engine.guided(ctx, ps, 5 if t else 2)
        if not t or ctx.violations or ctx.left(600) < 0: break


@check("P18")
def p18(ctx):
    """channels"""
    t = ctx.thorough
    cs, vs = corpus.topic("channels"), asserts.CORPUS["channels"]()
    gs = engine.conform(ctx, cs, cap=4000)
    engine.verdicts(ctx, vs, cap=4000)
    engine.nograph(ctx, cs + vs, cap=4000)
    engine.simulate(ctx, cs, [ctx.seed * 100 + i for i in range(40 if t else 6)], cap=4000, gs=gs, cover=len(cs), repeat=len(cs))
    engine.simulate_many(ctx, cs if t else cs[ctx.seed % 3::3], 30, cap=4000)
    engine.guided(ctx, cs, 6 if t else 3, cap=4000)
    us = [unbounded(p) for p in cs]
    for m in MODES if t else [MODES[i] for i in (0, 2, 5)]: engine.conform(ctx, us, [a.replace("@SEED@", str(ctx.seed)) for a in m], gs=gs, suffix=" (%s)" % " ".join(m).replace("--", ""))
    while True:
        engine.conform(ctx, randoms(ctx, ["messages"], 120), cap=1500 if t else 800)
        ps = randoms(ctx, ["messages"], 60)
        engine.verdicts(ctx, [asserts.decorate(ctx.rnd, p, [["always"], ["exists"], ["transition"]][i % 3], deadlock_detection=False) if i % 4
                              else dict(p, opts=dict(p["opts"], deadlock_detection=True)) for i, p in enumerate(ps)], cap=1500 if t else 400)
        engine.simulate(ctx, ps[:20], [ctx.seed], cap=400, repeat=20)
        if not t or ctx.violations or ctx.left(600) < 0: break


@check("P14")
def p14(ctx):
    """symmetry reduction"""
    t = ctx.thorough
    full = lambda ps: [p for p in ps if all(d["kind"] in ("nominal", "rotational") for d in p["doms"])]
    cs = symgen.corpus() + symgen.asserted()
    engine.symmetric(ctx, cs)
    engine.symmetric(ctx, full(cs), ("--no-symmetry-reduction",))
    while True:
        ps = [symgen.random_prog(ctx.rnd, "y%d" % i) for i in range(400 if t else 120)]
        engine.symmetric(ctx, ps)
        if t: engine.symmetric(ctx, full(ps), ("--no-symmetry-reduction",))
        if not t or ctx.violations or ctx.left(600) < 0: break


JOINTPROFS = ["atomic", "serial", "choice", "parallel", "loops", "roles", "crash"]


@check("P21")
def p21(ctx):
    """assertions about the next states"""
    t = ctx.thorough
    profs = ALLPROFS + ["messages", "crashpar"]
    def some(n):
        out = []
        for prof in profs:
            ps = randoms(ctx, [prof], n // len(profs))
            out += [asserts.decorate_next(ctx.rnd, p, prof not in ("parallel", "messages", "crashpar"), deadlock_detection=False) for p in ps]
        return out
    vs = asserts.CORPUS["next"]()
    gs = ctx.graphs(vs, 4000)
    engine.verdicts(ctx, [p for p in vs if not p.get("track")], gs=[g for p, g in zip(vs, gs) if not p.get("track")])
    engine.verdicts(ctx, [p for p in vs if p.get("track")], gs=[g for p, g in zip(vs, gs) if p.get("track")], compare_passed=False)
    free = [(unbounded(p), g) for p, g in zip(vs, gs) if not p.get("track")]
    for m in MODES if t else [MODES[2]] + ctx.rnd.sample(MODES, 1):
        m = [a.replace("@SEED@", str(ctx.rnd.randrange(1, 10 ** 6))) for a in m]
        engine.verdicts(ctx, [p for p, g in free], m, gs=[g for p, g in free], suffix=" (%s)" % " ".join(m).replace("--", ""))
    engine.nograph(ctx, [p for p, g in free], cap=4000)
    engine.simulate(ctx, [p for p, g in free], [ctx.seed * 100 + i for i in range(20 if t else 3)], gs=[g for p, g in free], repeat=len(free) if t else 20)
    while True:
        engine.verdicts(ctx, some(300), cap=1000 if t else 150)
        if not t or ctx.violations or ctx.left(600) < 0: break


@check("P19")
def p19(ctx):
    """refinement"""
    t = ctx.thorough
    def some(n):
        ps = [joint.random_refinement(ctx.rnd, JOINTPROFS[i % len(JOINTPROFS)], "j%d" % i) for i in range(n)]
        return engine.small(ctx, [p for p in ps if p], lambda p: [p["invs"][-1]["abs"]], 40)
    cs = joint.refinements()
    gs = ctx.graphs(cs, 4000)
    engine.verdicts(ctx, cs, gs=gs)
    for m in MODES if t else ctx.rnd.sample(MODES, 2):
        m = [a.replace("@SEED@", str(ctx.rnd.randrange(1, 10 ** 6))) for a in m]
        engine.verdicts(ctx, cs, m, gs=gs, suffix=" (%s)" % " ".join(m).replace("--", ""))
    while True:
        engine.verdicts(ctx, some(140), cap=60)
        if not t or ctx.violations or ctx.left(600) < 0: break


@check("P20")
def p20(ctx):
    """composition"""
    t = ctx.thorough
    def some(n):
        cs = [joint.random_composition(ctx.rnd, JOINTPROFS[i % len(JOINTPROFS)], "j%d" % i) for i in range(n)]
        return engine.small(ctx, [c for c in cs if c], lambda c: c["parts"], 30)
    engine.composition(ctx, joint.compositions())
    while True:
        engine.composition(ctx, some(120))
        if not t or ctx.violations or ctx.left(600) < 0: break
