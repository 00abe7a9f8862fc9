"""Verdicts: what the checker has to report about the assertions of a program, from its specification graph.

The always, transition and exists assertions and deadlock are decided on TLC's graph (state
assertions are evaluated by TLC in every state, transition assertions on every transition).  A
reported counterexample has to be a behaviour of the specification that ends in a violation.
"""
import json, re
from . import compare


class Expected:
    """always, trans: name -> states where the assertion fails (in / on a transition from)
    unseen_max, unseen_min: exists assertions without a witness among the states that the checker
    must explore / may explore; dead, maybe: states that are / may be deadlocks.
    must_fail, must_dead: decided by the states that the checker must explore"""


def must_states(g):
    """states the checker has to explore; the others lie behind optional transitions"""
    todo = [o["to"] for o in g.init if o["k"] == "yield"]
    seen = set(todo)
    while todo:
        for e in g.edges.get(todo.pop(), []):
            if not e["opt"] and e["to"] not in seen: seen.add(e["to"]); todo.append(e["to"])
    return seen


def expected(g, p):
    E = Expected()
    invs = p["invs"]
    must = must_states(g)
    E.always, E.trans, E.must_fail = {}, {}, False
    for sk, vals in g.inv.items():
        for i, v in enumerate(invs):
            if v["kind"] == "always" and not vals[i]:
                E.always.setdefault(v["name"], set()).add(sk)
                E.must_fail = E.must_fail or sk in must
    for sk, es in g.edges.items():
        for e in es:
            for i, v in enumerate(invs):
                if v["kind"] in ("transition", "refines") and e["ti"] and not e["ti"][i] and e["k"] != "idle":
                    E.trans.setdefault(v["name"], set()).add(sk)
                    E.must_fail = E.must_fail or sk in must and not e["opt"]
    ex = [(i, v["name"]) for i, v in enumerate(invs) if v["kind"] == "exists"]
    E.unseen_max = {n for i, n in ex if not any(vals[i] for sk, vals in g.inv.items() if sk in must)}
    E.unseen_min = {n for i, n in ex if not any(vals[i] for sk, vals in g.inv.items())}
    E.deadstates, E.maybe = set(), set()
    for sk in g.state:
        if p.get("track") and g.state[sk][0]["d"] >= p["opts"].get("max_actions", 100): continue    # not explored further
        es = [e for e in g.edges.get(sk, []) if e["a"] != "crash"]
        if not es: E.deadstates.add(sk)
        elif all(e["opt"] for e in es): E.maybe.add(sk)
    E.must_dead = bool(E.deadstates & must)
    return E


def mismatch(E, p, v, live=None):
    """None or what is expected instead of the verdict v; live: what TLC decides about the liveness
    assertions, (name, without, with the optional transitions)"""
    fails = {("always", n) for n in E.always} | {("transition", n) for n in E.trans}
    if v in fails: return None
    if E.must_fail: return "one of %s" % sorted(fails)
    dd = p["opts"].get("deadlock_detection", True)
    if v == ("deadlock",) and dd and (E.deadstates or E.maybe): return None
    if dd and E.must_dead: return "a deadlock"
    if v[0] == "exists" and E.unseen_min <= set(v[1:]) <= E.unseen_max: return None
    if E.unseen_min: return "no state for %s" % sorted(E.unseen_min)
    for n, h1, h2 in live or []:
        if v == ("liveness", n): return None if not (h1 and h2) else "%s to hold" % n
        if not h1 and not h2: return "a violation of %s" % n
    if v == ("passed",): return None
    return "success"


def path(enodes, elinks, p):
    """the reported counterexample as steps between yield points: [(label or choices, node index)]"""
    G = compare.of_impl(enodes, elinks, p, wit=False)
    c, lb, d = G.init[0]
    steps, n, seen = [((), c, lb)], d, []
    idx = [d]
    while G.edges.get(n):
        es = G.edges[n]
        if len(es) > 1: raise compare.ImplError("the counterexample is not a single path")
        lab, d2, _ = es[0]
        steps.append(lab); idx.append(d2); n = d2
        if n in seen: break
        seen.append(n)
    return G, steps, idx


def fits(lab, l2):
    """the label of a reported step is that of a transition of the specification"""
    k, name, ch, lbs = lab
    return l2[0] == k and (k == "deliver" or l2[1] == name) and l2[2] == ch


def walk_sets(g, GS, G, steps, idx):
    """for every yield point of the reported path: list of (state before, edge, state);
    raises ImplError with the first step that is impossible"""
    c = steps[0][1]
    cur = [(None, None, d) for c2, lb2, d in GS.init if c2 == c and GS.proj[d] == G.proj[idx[0]]]
    if not cur: raise compare.ImplError("the counterexample starts in no initial state: %s" % G.proj[idx[0]])
    out = [cur]
    for lab, n in zip(steps[1:], idx[1:]):
        nxt = []
        for s in {s for _, _, s in cur}:
            for e, (l2, d2, mand) in zip(g.edges.get(s, []), GS.edges.get(s, [])):
                if fits(lab, l2) and d2 in GS.proj and GS.proj[d2] == G.proj[n]:
                    nxt.append((s, e, d2))
        if not nxt:
            raise compare.ImplError("the counterexample takes a step that is impossible: %s to %s" % (compare.show(lab), G.proj[n]))
        cur = nxt
        out.append(cur)
    return out


def walk(g, p, enodes, elinks, noret=False):
    """specification states the reported path can end in: list of (state before, edge, state)"""
    GS = compare.of_spec(g, p, wit=False, noret=noret)
    G, steps, idx = path(enodes, elinks, p)
    return walk_sets(g, GS, G, steps, idx)[-1], idx[-1]


def judge(g, p, r, E=None, live=None, noret=False):
    """None or what is wrong with the report r about program p"""
    E = E or expected(g, p)
    v = r.verdict
    w = mismatch(E, p, v, live)
    if w: return "the checker reports %s; expected %s" % (v, w)
    if v[0] not in ("always", "transition", "deadlock"): return None
    if r.enodes is None: return "no counterexample files for %s" % (v,)
    try:
        ends, last = walk(g, p, r.enodes, r.elinks, noret)
    except compare.ImplError as e:
        return str(e)
    names = [x["name"] for x in p["invs"]]
    if v[0] == "always":
        if not any(s in E.always[v[1]] for _, _, s in ends): return "the counterexample does not end in a state that violates %s" % v[1]
        fi = (r.enodes[last].get("failedInvariants") or {}).get("0")
        want = [[i for i, x in enumerate(p["invs"]) if x["kind"] == "always" and not g.inv[s][i]] for _, _, s in ends]
        if fi is not None and sorted(fi) not in want: return "assertions reported false in the last state: %s, expected %s" % (fi, want)
    elif v[0] == "transition":
        i = names.index(v[1])
        if not any(e is not None and not e["ti"][i] for _, e, _ in ends): return "the last step of the counterexample does not violate %s" % v[1]
    elif not any(s in E.deadstates or s in E.maybe for _, _, s in ends):
        return "the counterexample of the deadlock ends in a state that has a transition"
    return None


# ------------------------------------------------------------------ the mode that keeps no graph

def brief(r):
    """verdict, printed steps and number of states of a run that keeps no graph"""
    head = r.out.split("=== Replaying")[0]
    m = re.search(r"FAILED: Model checker failed\. Invariant: +(\w+)", head)
    t = re.search(r"FAILED: Model checker failed\. Transition Invariant: +(\w+)", head)
    if r.verdict[0] in ("timeout", "unjudged"): v = r.verdict
    elif r.rc != 0 or "panic:" in r.err: v = ("error", (r.err + head)[-1500:])
    elif "DEADLOCK detected" in head: v = ("deadlock",)
    elif t: v = ("transition", t.group(1))
    elif m: v = ("always", m.group(1))
    elif "FAILED: Model checker failed" in head: v = ("failed", head[-500:])
    elif "PASSED: Model checker completed successfully" in head: v = ("passed",)
    else: v = ("unknown", head[-800:])
    m = re.search(r"Trace \(\d+ steps\):\n((?:  .*\n)*)", head)
    n = re.search(r"Unique states: (\d+)", head)
    return v, [x[2:] for x in m.group(1).splitlines()] if m else None, int(n.group(1)) if n else None


def brief_ends(g, p, steps):
    """(state before, edge, state) in which a behaviour with these printed steps can end: steps name
    the actions that start and the choices; continuations of actions in flight are not printed"""
    steps = [compare.strip_any(x, {}) for x in steps]
    def after(i, names):
        return i + len(names) if steps[i:i + len(names)] == list(names) else None
    todo, seen, ends = [], set(), []
    for o in g.init:
        if o["k"] == "yield":
            i = after(0, compare.spec_tr(o["tr"], {"roles": []}))
            if i is not None: todo.append((i, None, None, o["to"]))
    while todo:
        i, s0, e0, s = todo.pop()
        if i == len(steps): ends.append((s0, e0, s))
        if (i, s) in seen: continue
        seen.add((i, s))
        if s not in g.state: continue
        m = g.state[s][0]
        for e in g.edges.get(s, []):
            if e["a"] not in ("action", "thread", "deliver"): continue
            j = after(i, ([e["l"]] if e["a"] != "thread" else []) + compare.spec_tr(e["tr"], m))
            if j is not None: todo.append((j, s, e, e["to"]))
    return ends


def judge_brief(g, p, r, unique=None):
    """None or what is wrong with the report of a run that keeps no graph"""
    v, steps, n = brief(r)
    if v[0] in ("timeout", "unjudged", "error", "unknown"): return "the checker fails on a valid model: %s" % (v,)
    E = expected(g, p)
    E.unseen_min = E.unseen_max = set()
    w = mismatch(E, p, v)
    if w: return "the checker reports %s; expected %s" % (v, w)
    if v == ("passed",):
        return "%s states are reported; %d with the graph" % (n, unique) if unique is not None and n != unique else None
    if steps is None: return "no steps are printed for %s" % (v,)
    ends = brief_ends(g, p, steps)
    if not ends: return "no behaviour of the model has the printed steps %s" % steps
    names = [x["name"] for x in p["invs"]]
    if v[0] == "always": ok = any(s in E.always[v[1]] for _, _, s in ends)
    elif v[0] == "transition": ok = any(e is not None and not e["ti"][names.index(v[1])] for _, e, _ in ends)
    else: ok = any(s in E.deadstates or s in E.maybe for _, _, s in ends)
    return None if ok else "the printed steps %s do not lead to the reported %s" % (steps, v)
