"""Bounded exploration: what a checker explores that merges equal states reached by different numbers
of actions (breadth first: the first visit has the least number)."""
import json
from . import tla


def bare(m):
    """without the numbers of actions; the actions in flight in a fixed order"""
    return dict(m, d=0, cnt={}, cur=0, thr=sorted((t for t in m["thr"] if t["st"]), key=lambda t: json.dumps(t, sort_keys=True)))


def collapse(g, p):
    """the graph of a tracked program with the numbers of actions erased, and whether it says exactly
    what has to be explored: otherwise the starts of actions are only allowed"""
    groups = {}
    for sk, (m, kind) in g.state.items(): groups.setdefault(tla.key(bare(m), kind), []).append(sk)
    rep = {sk: k for k, sks in groups.items() for sk in sks}
    exact = not any(t["st"] for m, _ in g.state.values() for t in m["thr"]) and not any(e["a"] == "crash" for es in g.edges.values() for e in es)
    G, one = tla.SpecGraph(), True
    def mapped(es): return [dict(e, to=rep.get(e["to"], e["to"])) for e in es]
    for k, sks in groups.items():
        m, kind = g.state[sks[0]]
        d = min(g.state[sk][0]["d"] for sk in sks)
        G.state[k] = (dict(bare(m), d=d), kind)
        least = [mapped(g.edges.get(sk, [])) for sk in sks if g.state[sk][0]["d"] == d]
        texts = {json.dumps(sorted(json.dumps(e, sort_keys=True) for e in es)) for es in least}
        if len(texts) > 1: exact = one = False
        if len({g.state[sk][0]["d"] for sk in sks}) > 1: one = False
        G.edges[k] = least[0]
        for sk in sks:
            if sk in g.inv: G.inv[k] = g.inv[sk]
    G.init = [dict(o, to=rep.get(o["to"], o["to"])) for o in g.init]
    exact = exact or one            # (the state says how many actions led to it)
    if not exact:
        for k, sks in groups.items():
            es = {json.dumps(e, sort_keys=True): dict(e, opt=e["opt"] or e["a"] == "action") for sk in sks for e in mapped(g.edges.get(sk, []))}
            G.edges[k] = list(es.values())
    return G, exact
