"""Simulated runs: the runs written as graph.dot are behaviours of the specification, reported
failures are genuine."""
import json, re
from . import compare, live, verdict


# ------------------------------------------------------------------ texts of values

def tokens(s):
    return re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_][\w#.]*|-?\d+|[\[\](){},:=]', s)


def canon_text(s, ranks):
    """the text of a Starlark value, with its elements sorted and roles named by their instance"""
    t = tokens(s)
    def value(i):
        if t[i] == "role":
            n = t[i + 1]; i += 2
            if i < len(t) and t[i] == "(": i = skip(i)
            return ranks.get(n, n), i
        # (bags and generic sets are shown like lists)
        if t[i] == "[": xs, i = seq(i, "]"); return "[%s]" % ", ".join(sorted(xs)), i
        if t[i] == "(":
            xs, i = seq(i, ")"); return "(%s%s)" % (", ".join(xs), "," if len(xs) == 1 else ""), i
        if t[i] == "{": xs, i = seq(i, "}"); return "{%s}" % ", ".join(sorted(xs)), i
        if i + 1 < len(t) and t[i + 1] == "(" and re.match(r"[A-Za-z_]", t[i]):
            name = t[i]
            xs, j = seq(i + 1, ")")
            if name in ("set", "bag", "genericset"): return xs[0] if xs else "[]", j
            return "%s(%s)" % ("record" if name == "struct" else name, ", ".join(sorted(xs))), j
        return ranks.get(t[i], t[i]), i + 1
    def skip(i):
        d = 0
        while True:
            d += (t[i] == "(") - (t[i] == ")"); i += 1
            if d == 0: return i
    def seq(i, end):
        xs, i = [], i + 1
        while t[i] != end:
            if t[i] == ",": i += 1; continue
            v, i = value(i)
            if t[i] in (":", "="):
                sep = t[i]
                w, i = value(i + 1)
                v = v + (": " if sep == ":" else " = ") + w
            xs.append(v)
        return xs, i + 1
    v, i = value(0)
    if i != len(t): raise ValueError("value %s" % s)
    return v


# ------------------------------------------------------------------ projections

def spec_text(m, noret=False):
    """what a node of a dot file shows of state m"""
    rk = compare.rolekeys(m)
    fv = compare.fixv
    return compare.js({"state": {k: compare.plain(v, rk) for k, v in fv(m["heap"]).items()},
                       "returns": {} if noret else {k: compare.plain(v, rk) for k, v in fv(m["rets"]).items()},
                       "roles": [[rk[i + 1], {k: text(v, rk) for k, v in fv(r["f"]).items()}] for i, r in enumerate(m["roles"])],
                       "threads": sum(1 for t in m["thr"] if t["st"])})


def text(v, rk):
    t = v[0]
    if t == "G": return "{%s}" % ", ".join(sorted(text(x, rk) for x in v[1]))
    if t in ("l", "S"): return "[%s]" % ", ".join(sorted(text(x, rk) for x in v[1]))
    if t == "B": return "[%s]" % ", ".join(sorted(text(x, rk) for x, n in v[1] for _ in range(n)))
    if t == "t": return "(%s%s)" % (", ".join(text(x, rk) for x in v[1]), "," if len(v[1]) == 1 else "")
    if t in ("d", "M"): return "{%s}" % ", ".join(sorted("%s: %s" % (text(k, rk), text(x, rk)) for k, x in v[1]))
    if t == "R": return "record(%s)" % ", ".join(sorted("%s = %s" % (k, text(x, rk)) for k, x in v[1]))
    return compare.any_text(v, rk)


def spec_graph(g, p):
    G = compare.of_spec(g, p, wit=False)
    for sk, (m, kind) in g.state.items(): G.proj[sk] = spec_text(m)
    G.init = [(tuple(map(choice_text, c)), lb, d) for c, lb, d in G.init]
    G.edges = {sk: [((k, n, tuple(map(choice_text, c)), lb), d, m) for (k, n, c, lb), d, m in es] for sk, es in G.edges.items()}
    return G


def choice_text(c, ranks={}):
    """the text of a choice, perhaps followed by labels"""
    if c.startswith("Stmt:"): return re.match(r"Stmt:\d+", c).group(0)
    pre, v = re.match(r"^(Any:\w+=|For:)(.*)$", c, re.S).groups()
    for k in range(len(v), 0, -1):
        if k < len(v) and v[k] != "[": continue
        try: return pre + canon_text(v[:k], ranks)
        except (ValueError, IndexError): continue
    return c


class Node:
    pass


def parse(dot):
    """nodes in file order and edges of a dot file"""
    nodes, edges, order = {}, [], []
    for m in re.finditer(r'^  "(0x[0-9a-f]+)" \[label="((?:[^"\\]|\\.)*)", color="(\w+)"', dot, re.M):
        n = Node(); n.color = m.group(3)
        lines = m.group(2).split("\n")
        n.name, n.text = lines[0], m.group(2)
        nodes[m.group(1)] = n; order.append(m.group(1))
    for m in re.finditer(r'^  "(0x[0-9a-f]+)" -> "(0x[0-9a-f]+)" \[label="((?:[^"\\]|\\.)*)"', dot, re.M):
        edges.append((m.group(1), m.group(2), m.group(3).replace('\\"', '"')))
    return nodes, order, edges


def node_proj(n):
    t = n.text.split("\n", 2)[2]
    m = re.search(r"^Threads: \d+/(\d+)$", t, re.M)
    thr = int(m.group(1)) if m else 0
    body = t[:m.start()] if m else t
    body = body.replace('\\"', '"').rstrip("\n")
    parts = body.split("\\n")
    head, rest = parts[0], parts[1:]
    dec = json.JSONDecoder()
    state, rets = {}, {}
    if head.startswith("State: "):
        state, i = dec.raw_decode(head[7:]); head = head[7 + i:]
    if head.startswith("Returns: "):
        rets, i = dec.raw_decode(head[9:]); head = head[9 + i:]
    if head.strip(): raise compare.ImplError("node text %r" % n.text)
    cnt, ranks, roles = {}, {}, []
    for r in rest:
        ref, f = r.split(": ", 1)
        k = ref.split("#")[0]
        ranks[ref] = "%s#%d" % (k, cnt.get(k, 0)); cnt[k] = cnt.get(k, 0) + 1
        roles.append((ref, f))
    out = []
    for ref, f in roles:
        x = canon_text(f, ranks)
        out.append([ranks[ref], fields(x)])
    return compare.js({"state": compare.renorm(state, ranks), "returns": {compare.ren_key(k, ranks): compare.renorm(v, ranks) for k, v in rets.items()},
                       "roles": out, "threads": thr}), ranks


def fields(x):
    """fields(a = 1, b = [2]) -> dictionary of texts"""
    body = x[x.index("(") + 1:-1]
    out, d, cur, q = {}, 0, "", False
    for c in body + ",":
        if c == '"': q = not q
        if not q and c in "([{": d += 1
        if not q and c in ")]}": d -= 1
        if c == "," and d == 0 and not q:
            if cur.strip():
                k, v = cur.split(" = ", 1)
                out[k.strip()] = v.strip()
            cur = ""
        else: cur += c
    return out


def graph(dot, p):
    """the dot file in the form of the graphs the checker writes"""
    nodes, order, edges = parse(dot)
    idx = {a: i for i, a in enumerate(order)}
    proj = [node_proj(nodes[a]) for a in order]
    out = {}
    for a, b, l in edges:
        if a not in idx or b not in idx: continue
        l = l.split("\n")[0]
        m = re.match(r"^(.*?)((?:\[[\w.#:, -]*\])?)$", l)
        name, labels = m.group(1), m.group(2)
        out.setdefault(idx[a], []).append((name, labels, idx[b], l))
    G = compare.Graph()
    ns = [nodes[a] for a in order]
    def choice(l): return l[0].startswith(compare.CHOICE)
    def intermediate(i):
        ls = out.get(i, [])
        return any(choice(l) for l in ls) or not ls and ns[i].name not in ("yield", "crash", "init")
    def expand(i, cs, seen):
        for l in out.get(i, []):
            if not choice(l): raise compare.ImplError("node mixes choices with other transitions: %s" % l[0])
            c2 = cs + [choice_text(l[3], proj[i][1])]
            if intermediate(l[2]): yield from expand(l[2], c2, seen)
            else: yield c2, l[2]
    named_crash = not p["opts"].get("crash_on_yield", True) and any(a["name"] == "crash" for a in p["actions"])
    for i, n in enumerate(ns):
        if intermediate(i):
            if i == 0:
                for cs, d in expand(0, [], ()): G.init.append((tuple(cs), (), d))
            continue
        G.proj[i] = proj[i][0]
        if i == 0: G.init.append(((), (), 0))
        es = set()
        for l in out.get(i, []):
            nm = l[0]
            if nm == "end" and l[2] == i: continue
            ranks = proj[i][1]
            if nm == "crash" and not named_crash: kind, lab = "crash", "crash"
            elif nm.startswith("crash-role "): kind, lab = "crash", "crash-" + ranks.get(nm[11:], nm[11:])
            elif re.match(r"^thread-\d+$", nm): kind, lab = "thread", "*"
            elif re.match(r"^channel-\d+-message-\d+$", nm): kind, lab = "deliver", "*"
            else: kind, lab = "action", compare.ren_key(nm, ranks)
            if intermediate(l[2]):
                for cs, d in expand(l[2], [], ()): es.add(((kind, lab, tuple(cs), ()), d))
            else: es.add(((kind, lab, (), ()), l[2]))
        G.edges[i] = [(lab, d, True) for lab, d in sorted(es)]
    return G


def included(GI, GS):
    """None or a Mismatch: every path of the run is a behaviour"""
    return compare.conforms(GI, GS, ignore_labels=True, only_allowed=True)


def stable(dot):
    """the dot file without addresses"""
    ids = {}
    return re.sub(r"0x[0-9a-f]+", lambda m: "n%d" % ids.setdefault(m.group(0), len(ids)), dot or "")


def single(GI):
    """None or why the run is not one path: apart from steps back into itself, each state is followed
    by one state at most"""
    layer, seen = {d for _, _, d in GI.init}, set()
    last = None
    while layer:
        if len(layer) > 1: return "a simulated run takes several steps from a state, to %s" % " and to ".join(GI.proj[n] for n in sorted(layer)), None
        last = next(iter(layer)); seen |= layer
        layer = {d for lab, d, _ in GI.edges.get(last, [])} - seen
    return None, last


def cut_short(GI, GS, last):
    """None or a step (without choices) that the run could have continued with"""
    have = {GI.proj[n] for n in GI.proj}
    ss = [s for s in GS.proj if GS.proj[s] == GI.proj[last]]
    more = [[(lab, d) for lab, d, must in GS.edges.get(s, []) if must and lab[0] != "crash" and not lab[2] and GS.proj[d] not in have] for s in ss]
    if ss and all(more): return "the run ends in %s although %s leads on to %s" % (GI.proj[last], compare.show(more[0][0][0]), GS.proj[more[0][0][1]])
    return None


# ------------------------------------------------------------------ reports

def outcome(r, runs=1):
    """what simulated runs report"""
    if r.timeout: return ("timeout",)
    v = r.verdict
    if v[0] in ("error", "always", "transition"): return v
    if "Deadlock/stuttering detected" in r.out: return ("deadlock",)
    if re.search(r"^Stopped after %d runs" % runs, r.out, re.M): return ("stopped",)
    return ("unknown", (r.out + r.err)[-800:])


def unreported(g, p, GI, GS, E):
    """a failure that the run GI passes through, whatever the behaviour of the specification"""
    at = {}
    for sk in GS.proj: at.setdefault(GS.proj[sk], []).append(sk)
    def all_in(n, bad):
        ss = at.get(GI.proj[n], [])
        return bool(ss) and all(s in bad for s in ss)
    reach = {d for _, _, d in GI.init}
    for n in GI.proj:
        for lab, d, _ in GI.edges.get(n, []): reach.add(d)
    bad = set().union(*E.always.values()) if E.always else set()
    for n in reach:
        if all_in(n, bad): return "the run passes through a state that violates an assertion: %s" % GI.proj[n]
    ti = [i for i, v in enumerate(p["invs"]) if v["kind"] == "transition"]
    for n in GI.proj if ti else ():
        for lab, d, _ in GI.edges.get(n, []):
            es = [e for s in at.get(GI.proj[n], []) for e, (l2, d2, m) in zip(g.edges.get(s, []), GS.edges.get(s, []))
                  if GS.proj.get(d2) == GI.proj[d] and l2[:3] == lab[:3]]
            if es and all(any(not e["ti"][i] for i in ti) for e in es):
                return "the run takes a step that violates a transition assertion: %s to %s" % (compare.show(lab), GI.proj[d])
    if p["opts"].get("deadlock_detection", True):
        for n in reach:
            if not GI.edges.get(n) and all_in(n, E.deadstates): return "the run ends in a deadlock: %s" % GI.proj[n]
    return None


def judge(g, p, r, GS, E, v=None):
    """(None or what is wrong with the simulated run r, number of steps)"""
    v = v or outcome(r)
    if v[0] in ("error", "unknown"): return "the simulation fails on a valid model: %s" % (v,), 0
    names = [x["name"] for x in p["invs"]]
    if v == ("stopped",):
        if not r.dot: return "no graph is written", 0
        try: GI = graph(r.dot, p)
        except compare.ImplError as e: return str(e), 0
        mm = included(GI, GS)
        if mm: mm = str(mm)
        elif not p["opts"].get("crash_on_yield", True) and not any(x["kind"] in live.KINDS for x in p["invs"]):
            mm, last = single(GI)
            if not mm and last is not None and len(GI.proj) < 40 and not p.get("track"): mm = cut_short(GI, GS, last)
        return mm if mm else unreported(g, p, GI, GS, E), sum(len(e) for e in GI.edges.values())
    if r.enodes is None: return "no counterexample files for %s" % (v,), 0
    try: ends, last = verdict.walk(g, p, r.enodes, r.elinks)
    except compare.ImplError as e: return str(e), 0
    if v[0] == "always":
        ok = v[1] in E.always and any(s in E.always[v[1]] for _, _, s in ends)
    elif v[0] == "transition":
        ok = any(e is not None and not e["ti"][names.index(v[1])] for _, e, _ in ends)
    else: ok = p["opts"].get("deadlock_detection", True) and any(s in E.deadstates or s in E.maybe for _, _, s in ends)
    return None if ok else "the run does not end in the reported %s" % (v,), len(r.elinks)


def first_steps(GS):
    """names of the actions that can be the first"""
    return {l[1] for _, _, sk in GS.init for l, d, m in GS.edges.get(sk, []) if m and l[0] == "action"}


def taken(r, p):
    if not r.dot: return set()
    G = graph(r.dot, p)
    return {l[1] for _, _, n in G.init for l, d, _ in G.edges.get(n, []) if l[0] == "action"}


def shown(r, runs=True):
    """all that a simulated run shows, except for addresses, times and file names"""
    def path(): return None if r.enodes is None else [[n.get("state"), n.get("roles"), n.get("name")] for n in r.enodes]
    return compare.js([stable(r.dot) if runs else None, path(), [l["name"] for l in r.elinks or []], outcome(r)[0] if runs else None])


def safe(g, p, i):
    """a liveness assertion that holds on every cycle of fair steps, fair as a whole or not, and
    wherever nothing but unfair steps are left"""
    from . import live
    fa = live.fairness(p)
    w = lambda sk: g.inv[sk][i]
    succ = {sk: [e["to"] for e in g.edges.get(sk, []) if e["a"] != "crash" and live.level(p, live.ekey(e), fa) != "unfair"] for sk in g.state}
    for sk in g.state:
        if not w(sk) and not succ[sk]: return False
    inside = (lambda sk: not w(sk)) if p["invs"][i]["kind"] == "always-eventually" else (lambda sk: True)
    # cycles through a state where the assertion fails (always-eventually: within those states)
    for s0 in g.state:
        if w(s0): continue
        seen, todo = set(), [s0]
        while todo:
            for t in succ[todo.pop()]:
                if t == s0: return False
                if inside(t) and t not in seen: seen.add(t); todo.append(t)
    return True
