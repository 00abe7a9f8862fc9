"""Guided traces: the product of the specification graph with a trace is what the checker explores."""
import json, re
from . import compare, tla

SIMPLE = re.compile(r'^(Stmt:\d+|(Any:\w+=|For:)(-?\d+|"\w*"|True|False|None))$')


def config(p):
    """the program with the settings that guided traces force"""
    return dict(p, opts={"max_actions": 100, "max_concurrent_actions": 1, "crash_on_yield": False, "deadlock_detection": False}, aopts={})


def links(lab):
    """(the link of the start of an action or the delivery of a message, choices) of a transition"""
    return ([lab[1]] if lab[0] in ("action", "deliver") else []) + list(lab[2])


def simple(lab):
    return lab[0] in ("action", "deliver", "thread") and all(SIMPLE.match(c) for c in lab[2])


def product(g, p, trace, extend=0):
    """(the part of the specification graph that the trace selects, the number of links that execute)"""
    GS = compare.of_spec(g, p, wit=False)
    G, n = tla.SpecGraph(), len(trace)
    best = 0
    def consume(ls, first, i, c):
        """links of one transition from position i, after c links beyond the trace"""
        for k, l in enumerate(ls):
            if i < n:
                if l != trace[i]: return None, i
                i += 1
            elif extend == 0 or c >= extend and k == 0 and first: return None, i
            else: c += 1
        return (i, c), i
    todo = []
    def reach(sk, ic):
        k = (sk,) + ic
        if k not in G.state:
            G.state[k] = g.state[sk]
            if sk in g.inv: G.inv[k] = g.inv[sk]
            todo.append(k)
        return k
    for o, (ch, lb, d) in zip([o for o in g.init if o["k"] == "yield"], GS.init):
        ic, i = consume(list(ch), False, 0, 0)
        best = max(best, i)
        if ic: G.init.append(dict(o, to=reach(d, ic)))
    while todo:
        k = todo.pop()
        sk, i, c = k
        G.edges[k] = []
        for e, (lab, d, must) in zip(g.edges.get(sk, []), GS.edges.get(sk, [])):
            if d not in g.state: continue
            ic, j = consume(links(lab), lab[0] in ("action", "deliver"), i, c)
            if must: best = max(best, j)
            if ic: G.edges[k].append(dict(e, to=reach(d, ic)))
    return G, best


def walk(rnd, g, p, length):
    """a random path: (links, last state)"""
    GS = compare.of_spec(g, p, wit=False)
    ini = [x for x in GS.init if all(SIMPLE.match(c) for c in x[0])]
    if not ini: return None, None
    ch, _, sk = rnd.choice(ini)
    out = list(ch)
    for _ in range(length):
        es = [(lab, d) for lab, d, must in GS.edges.get(sk, []) if must and simple(lab)]
        if not es: break
        lab, d = rnd.choice(es)
        if len(out) + len(links(lab)) > 90: break
        out += links(lab); sk = d
    return out, sk


def starts(p, m):
    """link names of all actions, of those without choices"""
    def plain(b):
        return all(s["k"] in ("assign", "mut", "pass", "require") or s["k"] == "block" and s["flow"] in ("atomic", "serial") and plain(s["b"]) for s in b)
    out = [(a["name"], plain(a["b"]) and a["flow"] in ("atomic", "serial")) for a in p["actions"] if a["name"] != "Init"]
    rk = compare.rolekeys(m)
    for i, r in enumerate(m["roles"]):
        for R in p["roles"]:
            if R["name"] != r["n"]: continue
            out += [("%s.%s" % (rk[i + 1], a["name"]), plain(a["b"]) and a["flow"] in ("atomic", "serial")) for a in R["actions"] if a["name"] != "Init"]
    return out


def corpus():
    """programs whose steps have similar names"""
    from . import fz as F
    V, I, A = F.V, F.I, F.ACTION
    opts = {"deadlock_detection": False, "crash_on_yield": False}
    nine = F.LIST(*[I(x) for x in (1, 10, 11, 2)])
    xy = [F.ASSIGN("x", I(0)), F.ASSIGN("y", I(0))]
    node = F.ROLE("N", [A("Init", "atomic", F.ASSIGN(F.SELF("v"), I(0))), A("Up", "atomic", F.ASSIGN(F.SELF("v"), I(1))), A("UpTo", "atomic", F.ANY("v", nine, F.ASSIGN(F.SELF("v"), V("v"))))])
    out = [F.PROG("near_choice", xy, [A("A", "atomic", F.ANY("v", nine, F.ASSIGN("x", V("v")))), A("AB", "atomic", F.ANY("v", nine, F.ASSIGN("y", V("v"))))], opts=opts),
           F.PROG("near_name", xy, [A("A", "atomic", F.ASSIGN("x", I(1))), A("AB", "atomic", F.ASSIGN("x", I(0))), A("B", "serial", F.ASSIGN("y", I(1)), F.ASSIGN("y", I(2)), F.REQUIRE(F.EQ(V("x"), I(1))))], opts=opts),
           F.PROG("near_two", xy, [A("A", "atomic", F.ANY("v", nine, F.ANY("vv", nine, F.ASSIGN("x", F.ADD(V("v"), V("vv"))))))], opts=opts),
           F.PROG("near_role", [F.ASSIGN(v, F.NEWROLE("N")) for v in "abc"], [], roles=[node], opts=opts),
           F.PROG("near_str", xy, [A("Go", "atomic", F.ANY("v", F.LIST(F.S("a"), F.S("ab"), F.S("")), F.ASSIGN("x", V("v"))))], opts=opts)]
    return out + [dict(p, name=p["name"] + "_a", invs=[F.INV("Small", "always", F.OR(F.EQ(V("x"), I(0)), F.NE(V("x"), I(10))))]) for p in out[:3]]


def blocked(rnd, g, p, sk):
    """an action without choices that cannot start in the state, although no other is in flight"""
    m = g.state[sk][0]
    if any(t["st"] for t in m["thr"]) or m["ch"]: return None
    GS = compare.of_spec(g, p, wit=False)
    can = {lab[1] for lab, d, must in GS.edges.get(sk, [])}
    no = [n for n, pl in starts(p, m) if pl and n not in can]
    return rnd.choice(no) if no else None
