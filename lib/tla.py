"""Renders a program of lib/fz.py for spec/Fizz.tla and runs TLC on a batch of programs."""
import json, os, shutil, subprocess, tempfile, re
from . import fz

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
TRUE = ["bool", True]


class ToolError(Exception):
    pass


def to_tla(p):
    blocks, conds, defs, fairs = [], [], [], []

    def blk(stmts, flow):
        i = len(blocks)
        blocks.append(None)
        blocks[i] = {"fl": flow or "", "s": [stm(s) for s in stmts]}
        return i + 1

    def stm(s):
        k = s["k"]
        r = {"k": k, "label": s.get("label", "")}
        if k == "assign": r.update(t=s["t"], e=s["e"])
        elif k == "mut": r.update(t=s["t"], m=s["m"], a=s["a"])
        elif k == "pass": pass
        elif k == "block": r.update(b=blk(s["b"], s["flow"]))
        elif k == "if": r.update(brs=[{"c": b["c"], "b": blk(b["b"], b.get("flow"))} for b in s["brs"]])
        elif k == "for": r.update(fl=s["flow"] or "", v=s["v"], it=s["it"], b=blk(s["b"], None))
        elif k == "while":
            conds.append(s["c"])
            r.update(fl=s["flow"] or "", w=len(conds), b=blk(s["b"], None))
        elif k == "any":
            r.update(fl=s["flow"] or "", v=s["v"], it=s["it"], c=s["c"] if s["c"] is not None else TRUE,
                     b=0 if s["b"] is None else blk(s["b"], s.get("bflow")))
            if s.get("fair") in ("weak", "strong"): fairs.append(k)
            r["fid"] = len(fairs) if s.get("fair") in ("weak", "strong") else 0
        elif k in ("break", "continue"): pass
        elif k == "return": r.update(has=s["e"] is not None, e=s["e"] if s["e"] is not None else ["none"])
        elif k == "require": r.update(e=s["e"])
        elif k == "call": r.update(n=s["n"], r=s["r"] or "", v=s["v"] or "", a=s["a"], kw=s["kw"])
        else: raise ToolError("statement %s has no model" % k)
        return r

    def df(n, fname, kind, role, stmts, flow, params=(), defaults=None, crash=True, fair=None):
        b = blk(stmts, flow)
        defs.append({"n": n, "fname": fname, "kind": kind, "role": role, "b": b, "crash": crash, "fair": fair or "unfair",
                     "params": [{"n": x, "df": (defaults or {}).get(x, ["none"])} for x in params]})
        return len(defs)

    ao = p["aopts"]
    def cr(name): return ao.get(name, {}).get("crash_on_yield", True)
    init = df("Init", "Init", "init", "", p["init"], p.get("init_flow", "atomic"))
    actions = []
    for a in p["actions"]:
        actions.append(df(a["name"], a["name"], "action", "", a["b"], a["flow"], crash=cr(a["name"]), fair=a["fair"]))
    fdefs = {f["name"]: df(f["name"], f["name"], "func", "", f["b"], f["flow"], f["params"], f["defaults"]) for f in p["funcs"]}
    rinit, rfuncs, durable, roleacts = {}, {}, {}, []
    for r in p["roles"]:
        rinit[r["name"]] = 0
        for a in r["actions"]:
            full = r["name"] + "." + a["name"]
            if a["name"] == "Init":
                rinit[r["name"]] = df("Init", "Init", "rinit", r["name"], a["b"], a["flow"])
            else:
                roleacts.append(df(a["name"], full, "action", r["name"], a["b"], a["flow"], crash=cr(full), fair=a["fair"]))
        rfuncs[r["name"]] = {f["name"]: df(f["name"], f["name"], "func", r["name"], f["b"], f["flow"], f["params"], f["defaults"])
                             for f in r["funcs"]}
        durable[r["name"]] = {"has": bool(r["durable"] or r["ephemeral"]), "d": r["durable"] or [], "e": r["ephemeral"] or [],
                              "inv": not r["durable"]}
    o = p["opts"]
    return {"name": p["name"], "blocks": blocks, "conds": conds, "defs": defs, "init": init, "actions": actions + roleacts,
            "fdefs": fdefs, "rinit": rinit, "rfuncs": rfuncs, "durable": durable,
            "consts": dict({n: constval(e) for n, e in p["consts"]}, **symconsts(p)),
            "doms": doms(p), "domvars": {d["var"]: t for d, t in zip(p.get("doms", []), doms(p))},
            "svars": p.get("svars") or svars(p),
            "aopts": {k: {"ma": v.get("max_actions", 0), "mc": v.get("max_concurrent_actions", 0)} for k, v in ao.items()},
            "track": bool(p.get("track")), "maxact": o.get("max_actions", 100), "maxconc": conc(p),
            "crash": o.get("crash_on_yield", True),
            "invs": [{"n": v["name"], "k": v["kind"], "e": v["e"], "ps": v["params"],
                      **({"abs": to_tla(v["abs"]), "av": v["av"]} if v["kind"] == "refines" else {})} for v in p["invs"]]}


def doms(p):
    """symmetric domains"""
    return [{"n": d["name"], "kind": d["kind"], "lim": d["limit"], "div": d["div"], "mat": d["mat"],
             "mod": d["limit"] if d["kind"] == "rotational" else 0} for d in p.get("doms", [])]


def symconsts(p):
    """the lists of values of legacy symmetric_values"""
    return {d["list"]: ["l", [["y", [d["name"], i, 0]] for i in range(d["limit"])]] for d in p.get("doms", []) if d.get("list")}


def conc(p):
    o = p["opts"]
    return o.get("max_concurrent_actions", min(2, o.get("max_actions", 100)))


def constval(e):
    return {"int": lambda: ["i", e[1]], "str": lambda: ["s", e[1]], "bool": lambda: ["b", e[1]],
            "list": lambda: ["l", [constval(x) for x in e[1]]],
            "tuple": lambda: ["t", [constval(x) for x in e[1]]]}[e[0]]()


def svars(p):
    """names declared at the top level of Init"""
    out = []
    for s in p["init"]:
        if s["k"] == "assign" and s["t"][0] == "var" and s["t"][1] not in out: out.append(s["t"][1])
        if s["k"] == "any" and s["b"] is None and s["v"] not in out: out.append(s["v"])
        if s["k"] == "call" and s["v"] and s["v"] not in out: out.append(s["v"])
    return out


# ---------------------------------------------------------------- running TLC

def tlc(module, cfg, env=None, workers=8, timeout=600, extra=(), heap="8g", files=None, java=("-XX:+UseParallelGC",)):
    """runs TLC in a scratch directory; returns its output"""
    d = tempfile.mkdtemp(prefix="fztlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), d)
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as fh: fh.write(t)
        with open(os.path.join(d, "run.cfg"), "w") as fh: fh.write(cfg)
        e = dict(os.environ); e.update(env or {})
        cp = ":".join([JAR] + [os.path.join(os.path.dirname(JAR), x) for x in os.listdir(os.path.dirname(JAR))
                               if x.endswith(".jar") and x != "tla2tools.jar"])
        cmd = ["java", "-Xss64m", "-Xmx" + heap] + list(java) + ["-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "states"), "-config", "run.cfg", "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out after %ds on %s" % (timeout, module))
        return r.returncode, r.stdout.decode(errors="replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class SpecGraph:
    """what TLC explored for one program: states, edges, per-state invariant values"""
    def __init__(self):
        self.init, self.edges, self.inv, self.state = [], {}, {}, {}


def canon(x):
    """canonical form of a printed value: sets in a fixed order"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("S", "G", "d", "M", "B", "R") and isinstance(x[1], list):
            return [x[0], sorted((canon(y) for y in x[1]), key=lambda y: json.dumps(y, sort_keys=True))]
        return [canon(y) for y in x]
    if isinstance(x, dict):
        return {k: (sorted(canon(v)) if k == "dn" else fixfn(k, canon(v))) for k, v in x.items()}
    return x


FNKEYS = {"heap", "rets", "cnt", "loc", "arg", "f", "iv"}


def fixfn(k, v):
    return {} if k in FNKEYS and v == [] else v


def key(m, k):
    return json.dumps([m, k], sort_keys=True)


CFG = """INIT Init
NEXT Next
INVARIANTS TypeCorrect NoneInAtomic CallersWait
CHECK_DEADLOCK FALSE
"""


def graphs(progs, timeout=800, workers=8, info=None, cap=100000):
    """TLC explores every program exhaustively; returns a SpecGraph per program (None when it has
    more than about `cap` states per worker)"""
    d = tempfile.mkdtemp(prefix="fzp")
    try:
        fn = os.path.join(d, "progs.json")
        with open(fn, "w") as f: json.dump([to_tla(p) for p in progs], f)
        rc, out = tlc("MCFizz", CFG, env={"FIZZ_PROGS": fn, "FIZZ_CAP": str(cap)}, timeout=timeout, workers=workers)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if "Model checking completed. No error has been found" not in out:
        tail = "\n".join(l for l in out.splitlines() if not l.startswith('"@') and not l.startswith("@"))
        raise ToolError("TLC failed: " + tail[-3000:])
    gs = [SpecGraph() for _ in progs]
    for l in out.splitlines():
        if l.startswith('"@'): l = json.loads(l)
        if not l.startswith("@"): continue
        e = json.loads(l[2:])
        if l[1] == "X": gs[e["p"] - 1] = None
        g = gs[e["p"] - 1]
        if g is None: continue
        if l[1] == "I":
            for o in e["e"]:
                m = canon(o["m"]); kk = key(m, "yield")
                g.state[kk] = (m, "yield")
                g.init.append({"tr": canon(o["tr"]), "lb": o["lb"], "to": kk, "k": o["k"]})
        elif l[1] == "E":
            m = canon(e["m"]); sk = key(m, e["k"])
            g.state[sk] = (m, e["k"])
            es = g.edges.setdefault(sk, [])
            for o in e["e"]:
                m2 = canon(o["m"]); tk = "crash" if o["k"] in ("crash", "optcrash") else "yield"
                if o["k"] != "idle": g.state.setdefault(key(m2, tk), (m2, tk))
                es.append({"a": o["a"], "l": o["l"], "s": o["s"], "tr": canon(o["tr"]), "lb": o["lb"], "to": key(m2, tk),
                           "k": o["k"], "opt": o["k"] in ("idle", "optcrash"), "ti": o.get("ti", [])})
        elif l[1] == "V":
            g.inv[key(canon(e["m"]), e["k"])] = e["v"]
    if info is not None:
        info["generated"], info["distinct"] = stats(out)
    return gs
