"""Comparison up to the symmetries of a program.

With symmetry reduction the checker keeps one state of every class of states that differ only by a
renaming (a permutation of a nominal domain or of the instances of a symmetric role, a rotation of
a ring, a reflection), and a transition leads to the state that stands for the class.  The
specification has all states.  `SymSpec` shows the specification under every renaming, on demand;
`compare.conforms` may pick any renaming for the target of a transition.
"""
import itertools, json, re
from . import compare, tla


def domains(p): return {d["name"]: d for d in p.get("doms", [])}


def symroles(p): return [r["name"] for r in p["roles"] if r["symmetric"]]


def dom_elements(d):
    """renamings of one domain, as functions of (id, the used ids)"""
    n, k, refl = d["limit"], d["kind"], d["refl"]
    if k == "nominal": return [lambda i, us, q=q: q[i] for q in itertools.permutations(range(n))]
    if k == "rotational":
        return [lambda i, us, c=c: (i + c) % n for c in range(n)] + ([lambda i, us, c=c: (c - i) % n for c in range(n)] if refl else [])
    ident = lambda i, us: i
    # the values are numbered from 0: ranks, or distances from the least
    return [ident] + ([lambda i, us: max(us) - i] if refl else [])


def elements(p, m):
    """all renamings: ({domain: function}, {role: permutation of ranks})"""
    ds = p.get("doms", [])
    cnt = {}
    for r in m["roles"]: cnt[r["n"]] = cnt.get(r["n"], 0) + 1
    rs = [r for r in symroles(p) if cnt.get(r)]
    out = []
    for fs in itertools.product(*[dom_elements(d) for d in ds]):
        for qs in itertools.product(*[itertools.permutations(range(cnt[r])) for r in rs]):
            out.append(({d["name"]: f for d, f in zip(ds, fs)}, dict(zip(rs, qs))))
    return out


def used(m):
    us = {}
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "y" and isinstance(x[1], list) and len(x[1]) == 3: us.setdefault(x[1][0], set()).add(x[1][1])
            else:
                for y in x: go(y)
        elif isinstance(x, dict):
            for y in x.values(): go(y)
    go(m)
    return us


class Renaming:
    def __init__(self, el, m):
        """the renaming of a machine and of what happens in it"""
        self.f, perm = el
        self.us = used(m)
        by = {}
        for i, r in enumerate(m["roles"]): by.setdefault(r["n"], []).append(i + 1)
        self.idx, self.key = {}, {}
        for n, ix in by.items():
            q = perm.get(n, range(len(ix)))
            for k, i in enumerate(ix):
                self.idx[i] = ix[q[k]]
                self.key["%s#%d" % (n, k)] = "%s#%d" % (n, q[k])

    def value(self, x):
        if isinstance(x, list):
            if len(x) == 2:
                if x[0] == "y" and isinstance(x[1], list) and len(x[1]) == 3:
                    d, i, q = x[1]
                    return ["y", [d, self.f[d](i, self.us.get(d) or {i}) if d in self.f else i, q]]
                if x[0] == "r" and isinstance(x[1], int): return ["r", self.idx[x[1]]]
            return [self.value(y) for y in x]
        if isinstance(x, dict): return {k: self.idx.get(v, v) if k == "o" and isinstance(v, int) else self.value(v) for k, v in x.items()}
        return x

    def name(self, l):
        return re.sub(r"\b\w+#\d+", lambda k: self.key.get(k.group(0), k.group(0)), l)

    def machine(self, m):
        m2 = dict(self.value(m))
        rs = [None] * len(m["roles"])
        for i, r in enumerate(m2["roles"]): rs[self.idx[i + 1] - 1] = r
        m2["roles"] = rs
        m2["rets"] = {self.name(k): v for k, v in compare.fixv(m2["rets"]).items()}
        return m2


class SymSpec:
    """the specification under all renamings; nodes are (state, index of the renaming)"""
    def __init__(self, g, p, wit=True):
        self.g, self.p, self.tp = g, p, tla.to_tla(p)
        self.els, self.ren, self.projs, self.edge, self.by = {}, {}, {}, {}, {}
        ws = [i for i, v in enumerate(p["invs"]) if v["kind"] in compare.WITNESSED]
        self.ws = ws if wit else []
        self.edges, self.proj = _View(self.get_edges), _View(self.get_proj, g.state)
        self.init = []
        for o in g.init:
            if o["k"] != "yield": continue
            m = g.state[o["to"]][0]
            for j in range(len(self.elements(m))):
                r = self.renaming(o["to"], j)
                self.init.append((tuple(compare.spec_tr(r.value(o["tr"]), r.machine(m))), tuple(o["lb"]), o["to"]))
        self.init = list(dict.fromkeys(self.init))

    def elements(self, m):
        k = tuple(r["n"] for r in m["roles"])
        if k not in self.els: self.els[k] = elements(self.p, m)
        return self.els[k]

    def renaming(self, sk, j):
        if (sk, j) not in self.ren:
            m = self.g.state[sk][0]
            self.ren[sk, j] = Renaming(self.elements(m)[j], m)
        return self.ren[sk, j]

    def get_proj(self, n):
        if not isinstance(n, tuple): n = (n, 0)
        if n not in self.projs:
            x = compare.spec_proj(tla.canon(self.renaming(*n).machine(self.g.state[n[0]][0])), self.tp, True)
            if self.ws: x += " witness " + str([self.g.inv[n[0]][i] for i in self.ws])
            self.projs[n] = x
        return self.projs[n]

    def match(self, sk, proj):
        """the renamings of a state that look like proj"""
        if sk not in self.by:
            b = self.by[sk] = {}
            for j in range(len(self.elements(self.g.state[sk][0]))): b.setdefault(self.get_proj((sk, j)), []).append((sk, j))
        return self.by[sk].get(proj, [])

    def get_edges(self, n):
        if n not in self.edge:
            sk, j = n
            r = self.renaming(sk, j)
            m2 = r.machine(self.g.state[sk][0])
            out = []
            for e in self.g.edges.get(sk, []):
                nm = "*" if e["a"] == "thread" else r.name(e["l"])
                out.append(((e["a"], nm, tuple(compare.spec_tr(tla.canon(r.value(e["tr"])), m2)), tuple(sorted(e["lb"]))), e["to"], not e["opt"]))
            self.edge[n] = out
        return self.edge[n]


class _View:
    """dictionary computed on demand"""
    def __init__(self, f, keys=None): self.f, self.keys = f, keys
    def __getitem__(self, k): return self.f(k)
    def get(self, k, d=None): return self.f(k) if self.keys is None or k in self.keys or isinstance(k, tuple) else d
    def __contains__(self, k): return k in self.keys


def normal(p, nodes, links):
    """ordinal and interval values by rank / distance from the least, in every node and its links"""
    ds = [d for d in p.get("doms", []) if d["kind"] in ("ordinal", "interval") and not d["mat"]]
    if not ds: return nodes, links
    maps, out = [], []
    for n in nodes:
        t, mp = json.dumps(n), {}
        for d in ds:
            ids = sorted({int(x) for x in re.findall(r"\b%s(-?\d+)\b" % d["name"], t)})
            for i in ids: mp["%s%d" % (d["name"], i)] = "%s%d" % (d["name"], ids.index(i) if d["kind"] == "ordinal" else i - ids[0])
        maps.append(mp)
        out.append(json.loads(sub(ds, mp, t)))
    return out, [dict(l, name=sub(ds, maps[l["src"]], l["name"])) for l in links]


def sub(ds, mp, t):
    def gap(k):
        """the gap above so many values"""
        d, lo = k.group(1), k.group(2)
        return "segment %s %d" % (d, 0 if lo == "-inf" else int(mp[d + lo][len(d):]) + 1)
    if "<segment" in t: t = re.sub(r"<segment (\w+) \((-inf|\d+), (?:\+inf|\d+)\)>", gap, t)
    return re.sub(r"\b(?:%s)-?\d+\b" % "|".join(d["name"] for d in ds), lambda k: mp.get(k.group(0), k.group(0)), t)


def graph(p, nodes, links, wit=True):
    nodes, links = normal(p, nodes, links)
    return compare.of_impl(nodes, links, p, wit=wit, sort_roles=True)


def choice(p):
    """the text of a choice up to renaming: between the choices of an action its state may be replaced
    by another of its class"""
    ds = "|".join(d["name"] for d in p.get("doms", []) if d["kind"] in ("nominal", "rotational"))
    rs = "|".join(symroles(p))
    def f(x):
        x = str(x)
        if ds: x = re.sub(r"\b(%s)\d+\b" % ds, r"\1*", x)
        if rs: x = re.sub(r"\b(%s)#\d+" % rs, r"\1#*", x)
        return x
    return f


def classes(GS, GI):
    """pairs of states without actions in flight that differ only by a renaming"""
    seen, out = {}, []
    orbit = {}
    for sk in GS.g.state:
        ps = [GS.get_proj((sk, j)) for j in range(len(GS.elements(GS.g.state[sk][0])))]
        for q in ps: orbit[q] = min(ps)
    for i, q in GI.proj.items():
        if '"threads": []' not in q or q not in orbit: continue
        if orbit[q] in seen: out.append((seen[orbit[q]], i))
        seen[orbit[q]] = i
    return out


def start(p, nodes):
    """the first value of an interval domain is its start"""
    for d in p.get("doms", []):
        if d["kind"] != "interval" or d["mat"]: continue
        for n in nodes:
            if n["name"] not in ("yield", "init"): continue
            ids = [int(x) for x in re.findall(r"\b%s(-?\d+)\b" % d["name"], json.dumps([n["state"], n["roles"]]))]
            if ids:
                # (an allocation continues from the values in use, arithmetic may only go below later)
                return None if min(ids) == d["start"] else "the first value of domain %s is %d, not %d" % (d["name"], min(ids), d["start"])
    return None
