"""Liveness: TLC decides, on the specification's graph of a program, whether every fair behaviour
satisfies an assertion (spec/Fair.tla)."""
import json, os, re, shutil, tempfile
from . import compare, tla, verdict

KINDS = {"always-eventually": "AlwaysEventually", "eventually-always": "EventuallyAlways"}
CFG = "SPECIFICATION Spec\nPROPERTY %s\nCHECK_DEADLOCK FALSE\n"


def ekey(e):
    """the name under which a transition counts for fairness"""
    return {"action": lambda: e["l"], "thread": lambda: "thread-%d" % e["s"], "deliver": lambda: e["l"],
            "crash": lambda: "crash"}[e["a"]]()


def fairness(p):
    """action key without instance number -> weak | strong"""
    out = {}
    for a in p["actions"]: out[a["name"]] = a["fair"]
    for r in p["roles"]:
        for a in r["actions"]: out[r["name"] + "." + a["name"]] = a["fair"]
    return {k: v for k, v in out.items() if v in ("weak", "strong")}


def level(p, key, fa=None):
    if key.startswith("thread-"): return "strong"
    return (fa or fairness(p)).get(re.sub(r"#\d+", "", key), "unfair")


def choices(tr):
    """(prefix, choice) for every fair choice among the choices of a transition"""
    return [(tr[:j], json.dumps(t[2:])) for j, t in enumerate(tr) if t[0] == "Any" and len(t) > 3]


def graph_json(g, p, i, opt):
    ids = {sk: j + 1 for j, sk in enumerate(g.state)}
    out, keys, alts = [], set(), set()
    for sk in g.state:
        es, offer = [], {}
        mine = [e for e in g.edges.get(sk, []) if (opt or not e["opt"]) and e["to"] in ids]
        for e in mine:
            for pre, c in choices(e["tr"]): offer.setdefault(json.dumps([ekey(e), pre]), set()).add(c)
        for e in mine:
            k = ekey(e); keys.add(k)
            ch = choices(e["tr"])
            off = set().union(*[offer[json.dumps([k, pre])] for pre, c in ch]) if ch else set()
            alts |= off
            es.append({"to": ids[e["to"]], "key": k, "ch": sorted({c for _, c in ch}), "off": sorted(off)})
        out.append(es)
    fa = fairness(p)
    lv = {k: level(p, k, fa) for k in keys}
    return {"init": sorted({ids[o["to"]] for o in g.init if o["k"] == "yield"}), "out": out,
            "w": [g.inv[sk][i] for sk in g.state] if i is not None else [True] * len(ids),
            "alts": sorted(alts), "keys": sorted(keys), "weak": sorted(k for k in keys if lv[k] == "weak"), "strong": sorted(k for k in keys if lv[k] == "strong")}


def fair_tlc(G, kind):
    """(holds, states): TLC on spec/Fair.tla for graph G"""
    d = tempfile.mkdtemp(prefix="fzl")
    try:
        fn = os.path.join(d, "g.json")
        with open(fn, "w") as f: json.dump(G, f)
        rc, out = tla.tlc("Fair", CFG % KINDS[kind], env={"FIZZ_GRAPH": fn}, timeout=300, workers=1, heap="2g",
                          java=("-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    n = tla.stats(out)[1]
    if "Model checking completed. No error has been found" in out: return True, n
    if "Temporal properties were violated" in out or re.search(r"Temporal property \w+ (was|is) violated", out): return False, n
    raise tla.ToolError("TLC failed: " + out[-2000:])


def holds(g, p, i, opt=False):
    """(verdict, states) of assertion i of p on all fair behaviours"""
    return fair_tlc(graph_json(g, p, i, opt), p["invs"][i]["kind"])


def decide(g, p):
    """[(name, holds without, holds with the optional transitions)] of the liveness assertions"""
    o = any(e["opt"] for es in g.edges.values() for e in es)
    out = []
    for i, v in enumerate(p["invs"]):
        if v["kind"] in KINDS:
            h = holds(g, p, i)[0]
            out.append((v["name"], h, holds(g, p, i, True)[0] if o else h))
    return out


# ------------------------------------------------------------------ reported counterexamples

def counterexample(g, p, i, enodes, elinks):
    """None or what is wrong with a reported violation of liveness assertion i: the path has to be a
    behaviour of the specification that ends in a cycle (or stops), and TLC has to find that going
    around the cycle forever is fair and violates the assertion"""
    names = {l["src"]: l for l in elinks}
    n = len(enodes) - 1
    if [names.get(j, {}).get("dest") for j in range(n)] != list(range(1, n + 1)): return "the counterexample is not a single path"
    if n < 1: return "the counterexample has no step"
    tries = [None] if names[n - 1]["name"] == "stutter" else \
        [j for j in range(n - 1, -1, -1) if enodes[j] == enodes[n]]
    if not tries: return "the counterexample ends in no cycle"
    why = None
    for j in tries:
        why = lasso(g, p, i, enodes, elinks, names, n, j)
        if why is None: return None
    return why


def lasso(g, p, i, enodes, elinks, names, n, j):
    NAMES = ("yield", "crash", "init")
    order = list(range(n + 1))          # positions of the reported path, unrolled to a yield point
    if j is None: order, loop = order[:-1], None
    else:
        k = next((q for q in range(j, n) if enodes[q]["name"] in NAMES), None)
        if k is None: return "the cycle of the counterexample has no yield point"
        order += list(range(j + 1, k + 1)); loop = k
    nodes = [enodes[q] for q in order]
    links = []
    for x in range(len(order) - 1):
        l = names[order[x]] if order[x] < n else names[j]
        links.append(dict(l, src=x, dest=x + 1))
    try:
        GS = compare.of_spec(g, p, wit=False)
        G, steps, idx = verdict.path(nodes, links, p)
        if idx[-1] != len(order) - 1: return "the counterexample stops before its cycle is complete"
        sets = verdict.walk_sets(g, GS, G, steps, idx)
    except compare.ImplError as e:
        return str(e)
    start = idx.index(loop) if loop is not None else len(idx) - 1
    L = len(idx) - 1 - start            # steps of the cycle; 0: the behaviour stops
    why = None
    for opt in ((False, True) if any(e["opt"] for es in g.edges.values() for e in es) else (True,)):
        full = graph_json(g, p, i, opt)
        ids = {sk: x for x, sk in enumerate(g.state)}
        kept = {sk: [(e, t) for e, t in zip(g.edges.get(sk, []), GS.edges.get(sk, []))
                     if (opt or not e["opt"]) and e["to"] in ids] for sk in g.state}
        num, out, w, todo = {}, [], [], []
        def node(pos, sk):
            if (pos, sk) not in num:
                num[pos, sk] = len(num) + 2          # 1 is the way out of the cycle
                out.append([]); w.append(full["w"][ids[sk]]); todo.append((pos, sk))
            return num[pos, sk]
        init = [node(0, s) for s in sorted({s for _, _, s in sets[start]})]
        while todo:
            pos, sk = todo.pop()
            for (e, t), fe in zip(kept[sk], full["out"][ids[sk]]):
                to = 1
                if L:
                    lab, tgt = steps[start + pos + 1], idx[start + pos + 1]
                    if verdict.fits(lab, t[0]) and GS.proj[t[1]] == G.proj[tgt]: to = node((pos + 1) % L, t[1])
                out[num[pos, sk] - 2].append(dict(fe, to=to))
        sink = [{"to": 1, "key": k, "ch": [], "off": []} for k in full["keys"]]
        H = dict(full, init=init, out=[sink] + out, w=[True] + w)
        if not fair_tlc(H, p["invs"][i]["kind"])[0]: return None
        why = "the cycle of the counterexample is not fair or does not violate %s" % p["invs"][i]["name"]
    return why
