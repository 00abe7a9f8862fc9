"""Conformance of the graph the real checker explores with the behaviours of the specification.

Both sides become a graph whose nodes are yield points and whose edges are labelled with what a
user sees (which action ran, which nondeterministic choices it made, which labels it passed).
`conforms` decides modal simulation in both directions: every transition the checker explores is
allowed by the specification, every transition the specification requires is explored.
"""
import json
from . import tla


def js(x): return json.dumps(x, sort_keys=True)


# --------------------------------------------------------------- the specification's side

def rolekeys(m):
    cnt, out = {}, {}
    for i, r in enumerate(m["roles"]):
        k = cnt.get(r["n"], 0); cnt[r["n"]] = k + 1
        out[i + 1] = "%s#%d" % (r["n"], k)
    return out


def plain(v, rk):
    t = v[0]
    if t in ("i", "s", "b"): return v[1]
    if t == "n": return None
    if t in ("l", "t"): return [plain(x, rk) for x in v[1]]
    if t in ("S", "G"): return sorted((plain(x, rk) for x in v[1]), key=js)
    if t == "B": return sorted((plain(x, rk) for x, n in v[1] for _ in range(n)), key=js)
    if t in ("d", "M"): return {skey(k, rk): plain(x, rk) for k, x in v[1]}
    if t == "R": return {k: plain(x, rk) for k, x in v[1]}
    if t == "r": return "role " + rk[v[1]]
    if t == "y": return "%s%d" % (v[1][0], v[1][1])
    if t == "g": return "segment %s %d" % (v[1][0], v[1][1])
    if t == "c": return {"id": v[1]}
    if t == "stub": return {"Role": rk[v[1]], "Channel": "channel#%d" % v[2]}
    return "?" + t


def skey(k, rk):
    p = plain(k, rk)
    return p if isinstance(p, str) else any_text(k, rk) if '["y", [' in js(k) else js(p)


def fixv(x):
    return {} if x == [] else x


def spec_state(g, sk, prog, tp):
    m, kind = g.state[sk]
    return spec_proj(m, tp)


def spec_proj(m, tp, sort_roles=False):
    rk = rolekeys(m)
    return js({"state": {k: plain(v, rk) for k, v in fixv(m["heap"]).items()},
               "roles": sorted([{"k": rk[i + 1], "p": {k: plain(v, rk) for k, v in fixv(r["p"]).items()},
                                 "f": {k: plain(v, rk) for k, v in fixv(r["f"]).items()}} for i, r in enumerate(m["roles"])],
                               key=lambda x: x["k"] if sort_roles else 0),
               "returns": {k: plain(v, rk) for k, v in fixv(m["rets"]).items()},
               "threads": sorted([tp["defs"][f["d"] - 1]["fname"] for f in t["st"]] for t in m["thr"] if t["st"]),
               "msgs": sorted(js([c["c"], rk[c["o"]], tp["defs"][c["f"]["d"] - 1]["n"], {k: plain(v, rk) for k, v in fixv(c["f"]["arg"]).items()}]) for c in m["ch"])})


def valref(v):
    return v


def spec_tr(tr, m0):
    rk = rolekeys(m0)
    out = []
    for t in tr:
        if t[0] == "Any": out.append("Any:%s=%s" % (t[1], any_text(t[2], rk)))
        elif t[0] == "For": out.append("For:%s" % any_text(t[1], rk))
        else: out.append("Stmt:%d" % t[1])
    return out


def any_text(v, rk):
    t = v[0]
    if t == "i": return str(v[1])
    if t == "s": return '"%s"' % v[1]
    if t == "b": return "True" if v[1] else "False"
    if t == "n": return "None"
    if t == "r": return rk.get(v[1], "role?")
    if t == "y": return "%s%d" % (v[1][0], v[1][1])
    if t == "g": return "segment %s %d" % (v[1][0], v[1][1])
    if t == "l": return "[%s]" % ", ".join(any_text(x, rk) for x in v[1])
    if t == "t": return "(%s%s)" % (", ".join(any_text(x, rk) for x in v[1]), "," if len(v[1]) == 1 else "")
    if t == "S": return "set([%s])" % ", ".join(sorted(any_text(x, rk) for x in v[1]))
    if t == "d": return "{%s}" % ", ".join(sorted("%s: %s" % (any_text(k, rk), any_text(x, rk)) for k, x in v[1]))
    if t == "R": return "record(%s)" % ", ".join(sorted("%s = %s" % (k, any_text(x, rk)) for k, x in v[1]))
    return "?"


class Graph:
    def __init__(self):
        self.init, self.edges, self.proj, self.meta = [], {}, {}, {}
        # init: [(choices, labels, target)]; edges: node -> [(label tuple, target, mandatory)]


def spec_rets(m):
    """the returned values of the step into m, as part of its label"""
    rk = rolekeys(m)
    return tuple("%s returns %s" % (k, any_text(v, rk)) for k, v in sorted(fixv(m["rets"]).items()))


def impl_rets(l, ranks):
    return tuple(sorted("%s returns %s" % (ren_key(k, ranks), strip_any("For:" + v, ranks)[4:]) for k, v in l["returns"].items()))


def of_spec(g, prog, tp=None, wit=True, rets=False, noret=False):
    """wit: states show the witnesses of the assertions; rets: transitions show the returned values;
    noret: states do not show them"""
    tp = tp or tla.to_tla(prog)
    G = Graph()
    for sk, (m, kind) in g.state.items():
        G.proj[sk] = spec_proj(dict(m, rets={}) if noret else m, tp)
    ws = [i for i, v in enumerate(prog["invs"]) if v["kind"] in WITNESSED]
    if ws and wit:
        for sk in g.state: G.proj[sk] += " witness " + str([g.inv[sk][i] for i in ws])
    for o in g.init:
        if o["k"] == "yield":
            G.init.append((tuple(spec_tr(o["tr"], {"roles": []})), tuple(o["lb"]), o["to"]))
    for sk, es in g.edges.items():
        m = g.state[sk][0]
        out = []
        for e in es:
            name = "*" if e["a"] == "thread" else e["l"]
            lab = (e["a"], name, tuple(spec_tr(e["tr"], m)), tuple(sorted(e["lb"])))
            if rets and e["to"] in g.state: lab = lab[:3] + (lab[3] + spec_rets(g.state[e["to"]][0]),)
            out.append((lab, e["to"], not e["opt"]))
        G.edges[sk] = out
    return G


# ------------------------------------------------------------------ the checker's side

CHOICE = ("Any:", "Stmt:", "For:")


def sortval(v, plainjson):
    return v


def impl_val(v, kinds=None):
    if isinstance(v, list): return [impl_val(x) for x in v]
    if isinstance(v, dict): return {k: impl_val(x) for k, x in v.items()}
    return v


class ImplError(Exception):
    pass


def impl_proj(n, sort_roles, ranks):
    """projection of a node"""
    st = {k: renorm(v, ranks) for k, v in (n["state"] or {}).items()}
    rs = []
    for r in n["roles"] or []:
        rs.append({"k": ranks[r["ref_string"]], "p": {k: renorm(v, ranks) for k, v in (r["params"] or {}).items()},
                   "f": {k: renorm(v, ranks) for k, v in (r["fields"] or {}).items()}})
    if sort_roles: rs.sort(key=lambda x: x["k"])
    ret = json.loads(n["returns"]) if n.get("returns") else {}
    thr = []
    for t in n["threads"] or []:
        thr.append([] if t is None else [f["name"] for f in t["stack"] or []])
    return js({"state": st, "roles": rs, "returns": {ren_key(k, ranks): renorm(v, ranks) for k, v in (ret or {}).items()},
               "threads": sorted(thr), "msgs": sorted(impl_msgs(n, ranks))})


def impl_msgs(n, ranks):
    out = []
    for c, ms in (n.get("channel_messages") or {}).items():
        for m in ms or []:
            out.append(js([int(c), ranks.get(m["receiver"], m["receiver"]), m["function"], {k: renorm(v, ranks) for k, v in (m["params"] or {}).items()}]))
    return out


def ren_key(k, ranks):
    if "." in k:
        a, b = k.split(".", 1)
        return ranks.get(a, a) + "." + b
    return k


def renorm(v, ranks):
    if isinstance(v, str) and v.startswith("role "): return "role " + ranks.get(v[5:], v[5:])
    if isinstance(v, list): return [renorm(x, ranks) for x in v]
    if isinstance(v, dict) and set(v) == {"Role", "Channel"}: return dict(v, Role=ranks.get(v["Role"], v["Role"]))
    if isinstance(v, dict): return {k: renorm(x, ranks) for k, x in v.items()}
    return v


def role_ranks(n):
    cnt, out = {}, {}
    for r in n["roles"] or []:
        k = cnt.get(r["name"], 0); cnt[r["name"]] = k + 1
        out[r["ref_string"]] = "%s#%d" % (r["name"], k)
    return out


def strip_any(name, ranks):
    """Any:x=role Node#0 (fields...)  ->  Any:x=Node#0"""
    import re
    m = re.match(r"^(Any:\w+=|For:)role ([\w]+#\d+)", name)
    if m: return m.group(1) + ranks.get(m.group(2), m.group(2))
    m = re.match(r"^(Any:\w+=|For:)set\(\[(.*)\]\)$", name)
    if m: return m.group(1) + "set([%s])" % ", ".join(sorted(m.group(2).split(", ")))
    m = re.match(r"^(Any:\w+=|For:)\{(.*)\}$", name)
    if m: return m.group(1) + "{%s}" % ", ".join(sorted(m.group(2).split(", ")))
    return name


WITNESSED = ("exists", "eventually-always", "always-eventually", "eventually")


def of_impl(nodes, links, prog=None, wit=True, rets=False, sort_roles=False):
    G = Graph()
    out = {}
    for l in links: out.setdefault(l["src"], []).append(l)
    ranks = [role_ranks(n) for n in nodes]
    ws = [i for i, v in enumerate(prog["invs"]) if v["kind"] in WITNESSED] if prog and wit else []
    # an action may be called crash (its transitions are not told apart when crashes are on, too)
    named_crash = prog and not prog["opts"].get("crash_on_yield", True) and any(a["name"] == "crash" for a in prog["actions"])

    def is_choice(l): return l["name"].startswith(CHOICE) or l["name"] == "return" and False

    def intermediate(i):
        ls = out.get(i, [])
        if any(is_choice(l) for l in ls): return True
        return not ls and nodes[i]["name"] not in ("yield", "crash", "init")

    def expand(i, choices, labels, seen):
        """yield points reachable from intermediate node i"""
        for l in out.get(i, []):
            if not is_choice(l):
                if nodes[l["dest"]]["name"] == nodes[i]["name"] and l["name"] == "end": continue
                raise ImplError("node %d mixes choices with other links (%s)" % (i, l["name"]))
            c2 = choices + [strip_any(l["name"], ranks[i])]
            l2 = labels + l["labels"]
            if intermediate(l["dest"]):
                yield from expand(l["dest"], c2, l2, seen)
            else:
                yield c2, l2, l["dest"], impl_rets(l, ranks[i]) if rets else ()

    import re
    for i, n in enumerate(nodes):
        if i and intermediate(i): continue
        if i == 0 and intermediate(0):
            for c, lb, d, _ in expand(0, [], [], ()):
                G.init.append((tuple(c), tuple(lb), d))
            continue
        G.proj[i] = impl_proj(n, sort_roles, ranks[i])
        if ws: G.proj[i] += " witness " + str([n["witness"][0][j] for j in ws])
        if i == 0: G.init.append(((), (), 0))
        es = set()
        for l in out.get(i, []):
            nm = l["name"]
            if nm == "end" and l["src"] == l["dest"]: continue
            if nm == "crash" and not named_crash: kind, lab = "crash", "crash"
            elif nm.startswith("crash-role "): kind, lab = "crash", "crash-" + ranks[i].get(nm[11:], nm[11:])
            # (slots of finished actions are not shown, so the index does not name the action;
            # the action that moved is seen in the target)
            elif re.match(r"^thread-\d+$", nm): kind, lab = "thread", "*"
            elif re.match(r"^channel-\d+-message-\d+$", nm): kind, lab = "deliver", "*"
            else: kind, lab = "action", ren_key(nm, ranks[i])
            if intermediate(l["dest"]):
                for c, lb, d, rt in expand(l["dest"], [], list(l["labels"]), ()):
                    es.add(((kind, lab, tuple(c), tuple(sorted(lb)) + rt), d))
            else:
                es.add(((kind, lab, (), tuple(sorted(l["labels"])) + (impl_rets(l, ranks[i]) if rets else ())), l["dest"]))
        G.edges[i] = [(lab, d, True) for lab, d in sorted(es)]
    return G


# --------------------------------------------------------------------- modal simulation

class Mismatch:
    def __init__(self, what, path, detail):
        self.what, self.path, self.detail = what, path, detail

    def __str__(self):
        return "%s\n  after: %s\n  %s" % (self.what, " ; ".join(self.path) or "(initial state)", self.detail)


def show(lab):
    k, n, c, lb = lab
    return "%s:%s%s%s" % (k, n, " [" + ", ".join(c) + "]" if c else "", " labels " + ",".join(lb) if lb else "")


def conforms(GI, GS, ignore_labels=False, only_allowed=False, ignore_choices=False, choice=None):
    """None or a Mismatch; GI the checker's graph, GS the specification's; only_allowed: GI need not
    have every transition"""
    def L(lab):
        k, n, c, lb = lab
        if k == "deliver": n = "*"
        return (k, n, C(c), () if ignore_labels else lb)

    C = lambda c: () if ignore_choices else tuple(choice(x) for x in c) if choice else c
    pairs, order, parent = {}, [], {}
    match = getattr(GS, "match", None) or (lambda d2, proj: [d2] if d2 in GS.proj and GS.proj[d2] == proj else [])

    def obligations(n, s):
        eis = [(L(l), d) for l, d, _ in GI.edges.get(n, [])]
        ess = [(L(l), d, mand) for l, d, mand in GS.edges.get(s, [])]
        obs = []
        for l, d in eis:
            cand = []
            for l2, d2, mand in ess:
                if l2 != l: continue
                if d2 not in GS.proj:
                    cand.append(True); continue
                cand += [(d, x) for x in match(d2, GI.proj[d])]
            obs.append(("extra", l, d, cand))
        for l2, d2, mand in ess:
            if not mand or only_allowed: continue
            cand = [(d, x) for l, d in eis if l == l2 for x in match(d2, GI.proj[d])]
            obs.append(("missing", l2, d2, cand))
        return obs

    # initial obligations
    inits = []
    for c, lb, d in GI.init:
        inits.append(("extra", c, d, [(d, x) for c2, lb2, d2 in GS.init if C(c2) == C(c) for x in match(d2, GI.proj[d])]))
    for c2, lb2, d2 in [] if only_allowed else GS.init:
        inits.append(("missing", c2, d2, [(d, x) for c, lb, d in GI.init if C(c2) == C(c) for x in match(d2, GI.proj[d])]))
    stack = []
    for ob in inits:
        for p in ob[3]:
            if p not in parent: parent[p] = None; stack.append(p)
    i = 0
    while i < len(stack):
        p = stack[i]; i += 1
        obs = obligations(*p)
        pairs[p] = obs
        for kind, l, d, cand in obs:
            for q in cand:
                if q is not True and q not in parent:
                    parent[q] = (p, l); stack.append(q)
    # refinement
    users = {}
    for p, obs in pairs.items():
        for j, ob in enumerate(obs):
            for q in ob[3]:
                if q is not True: users.setdefault(q, []).append((p, j))
    alive = {p: [len(ob[3]) for ob in obs] for p, obs in pairs.items()}
    dead = []
    why = {}
    for p in stack:
        for j, n in enumerate(alive[p]):
            if n == 0:
                why[p] = j; dead.append(p); break
    i = 0
    while i < len(dead):
        p = dead[i]; i += 1
        for q, j in users.get(p, []):
            alive[q][j] -= 1
            if alive[q][j] == 0 and q not in why:
                why[q] = j; dead.append(q)
    for kind, c, d, cand in inits:
        if not any(p not in why for p in cand):
            if not cand:
                G = GI if kind == "extra" else GS
                return Mismatch(kind + " initial state", [], "%s %s" % (list(c), G.proj.get(d)))
            # follow the reasons down to a local mismatch
            p, path, seen = cand[0], [], set()
            while True:
                seen.add(p)
                k2, l, d2, cs = pairs[p][why[p]]
                if not cs:
                    G = GI if k2 == "extra" else GS
                    others = [(show(x[1]), (GI if k2 == "missing" else GS).proj.get(x[2], "?")) for x in pairs[p]
                              if x[0] != k2 and x[1][:2] == l[:2]][:6]
                    return Mismatch(("the checker explores a transition the specification does not allow"
                                     if k2 == "extra" else "the checker misses a transition the specification requires"),
                                    path, "in state %s\n  transition %s to %s\n  other side has: %s"
                                    % (GI.proj[p[0]], show(l), G.proj.get(d2), others))
                path.append(show(l))
                nxt = [q for q in cs if q not in seen]
                if not nxt: return Mismatch("no simulation", path, "cyclic")
                # prefer the candidate that died earliest
                p = min(nxt, key=lambda q: dead.index(q))
    return None


def counts(GI):
    return len(GI.proj), sum(len(e) for e in GI.edges.values())
