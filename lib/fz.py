"""Program IR shared by the generator, the fizz JSON emitter and the TLA+ emitter.

Expressions are nested lists  [op, ...]; statements likewise (see the constructors).
The same IR is rendered twice:
  * to_fizz(prog)  -> protojson of proto File, the input of the real model checker
                      (expressions become Starlark text)
  * to_tla(prog)   -> JSON read by spec/Fizz.tla (expressions stay trees, blocks are numbered)
"""

# ---------------------------------------------------------------- expressions


def I(n): return ["int", n]
def S(s): return ["str", s]
def B(b): return ["bool", bool(b)]
def N(): return ["none"]
def V(x): return ["var", x]
def ATTR(e, f): return ["attr", e, f]
def SELF(f): return ["attr", ["var", "self"], f]
def BIN(op, a, b): return ["bin", op, a, b]
def ADD(a, b): return BIN("+", a, b)
def SUB(a, b): return BIN("-", a, b)
def MOD(a, b): return BIN("%", a, b)
def EQ(a, b): return BIN("==", a, b)
def NE(a, b): return BIN("!=", a, b)
def LT(a, b): return BIN("<", a, b)
def LE(a, b): return BIN("<=", a, b)
def GT(a, b): return BIN(">", a, b)
def GE(a, b): return BIN(">=", a, b)
def IN(a, b): return BIN("in", a, b)
def AND(a, b): return ["and", a, b]
def OR(a, b): return ["or", a, b]
def NOT(a): return ["not", a]
def IFE(c, a, b): return ["ife", c, a, b]
def LIST(*es): return ["list", list(es)]
def TUP(*es): return ["tuple", list(es)]
def DICT(*kvs): return ["dict", [list(kv) for kv in kvs]]
def SET(*es): return ["set", list(es)]
def BAG(*es): return ["bag", list(es)]
def GSET(*es): return ["gset", list(es)]
def GMAP(*kvs): return ["gmap", [list(kv) for kv in kvs]]
def REC(**kw): return ["rec", [[k, v] for k, v in sorted(kw.items())]]
def STRUCT(**kw): return ["struct", [[k, v] for k, v in sorted(kw.items())]]
def IDX(e, i): return ["idx", e, i]
def CALL(fn, *es): return ["fn", fn, list(es)]          # builtins: len range sum min max sorted list set any all ...
def METH(e, m, *es): return ["meth", e, m, list(es)]    # pure methods: get keys values count ...
def COMP(body, var, it, cond=None): return ["comp", body, var, it, cond if cond is not None else B(True)]
def DOP(var, op): return ["dom", var, op]                # operation of a symmetric domain
def SEGS(var, after=None, before=None): return ["segs", var, after or ["none"], before or ["none"]]
def GAPFRESH(x): return ["gapfresh", x]                  # a new value in the gap that variable x holds
def CHAN(i): return ["chan", i]                          # the i-th channel that is created
def STUB(c, r): return ["stub", c, r]                    # calls through it are sent as messages
def NEWROLE(r, **kw): return ["newrole", r, [[k, v] for k, v in kw.items()]]


PREC = {"or": 1, "and": 2, "not": 3, "cmp": 4, "+": 6, "*": 7}


def star(e):
    """Starlark text (fully parenthesised where needed)"""
    op = e[0]
    if op == "int": return str(e[1]) if e[1] >= 0 else "(%d)" % e[1]
    if op == "str": return '"%s"' % e[1]
    if op == "bool": return "True" if e[1] else "False"
    if op == "none": return "None"
    if op == "var": return e[1]
    if op == "attr": return "%s.%s" % (star(e[1]), e[2])
    if op == "bin": return "(%s %s %s)" % (star(e[2]), e[1], star(e[3]))
    if op == "and": return "(%s and %s)" % (star(e[1]), star(e[2]))
    if op == "or": return "(%s or %s)" % (star(e[1]), star(e[2]))
    if op == "not": return "(not %s)" % star(e[1])
    if op == "ife": return "(%s if %s else %s)" % (star(e[2]), star(e[1]), star(e[3]))
    if op == "list": return "[%s]" % ", ".join(star(x) for x in e[1])
    if op == "tuple": return "(%s,)" % ", ".join(star(x) for x in e[1]) if e[1] else "()"
    if op == "dict": return "{%s}" % ", ".join("%s: %s" % (star(k), star(v)) for k, v in e[1])
    if op == "set": return "set([%s])" % ", ".join(star(x) for x in e[1])
    if op == "bag": return "bag([%s])" % ", ".join(star(x) for x in e[1])
    if op == "gset": return "genericset([%s])" % ", ".join(star(x) for x in e[1])
    if op == "gmap": return "genericmap({%s})" % ", ".join("%s: %s" % (star(k), star(v)) for k, v in e[1]) if e[1] else "genericmap()"
    if op == "rec": return "record(%s)" % ", ".join("%s=%s" % (k, star(v)) for k, v in e[1])
    if op == "struct": return "struct(%s)" % ", ".join("%s=%s" % (k, star(v)) for k, v in e[1])
    if op == "idx": return "%s[%s]" % (star(e[1]), star(e[2]))
    if op == "fn": return "%s(%s)" % (e[1], ", ".join(star(x) for x in e[2]))
    if op == "meth": return "%s.%s(%s)" % (star(e[1]), e[2], ", ".join(star(x) for x in e[3]))
    if op == "comp": return "[%s for %s in %s if %s]" % (star(e[1]), e[2], star(e[3]), star(e[4]))
    if op == "newrole": return "%s(%s)" % (e[1], ", ".join("%s=%s" % (k, star(v)) for k, v in e[2]))
    if op == "dom": return "%s.%s()" % (e[1], e[2])
    if op == "isof": return "(%s.role_id == %s.__id__)" % (star(e[1]), star(e[2]))
    if op == "nexts": return "next_states()"
    if op == "segs":
        return "%s.segments(%s)" % (e[1], ", ".join("%s=%s" % (k, star(x)) for k, x in (("after", e[2]), ("before", e[3])) if x != ["none"]))
    if op == "gapfresh": return "%s.fresh()" % e[1]
    if op == "chan": return "Channel(ordering='unordered', delivery='exactly_once', blocking='fire_and_forget')"
    if op == "stub": return "%s.stub(%s)" % (star(e[1]), star(e[2]))
    if op == "nextstates": return "next_states()"
    raise ValueError(op)


# ----------------------------------------------------------------- statements
# each statement is a dict {"k": kind, ...}, optional "label"

def ASSIGN(target, e): return {"k": "assign", "t": target if isinstance(target, list) else V(target), "e": e}
def MUT(target, m, *es): return {"k": "mut", "t": target if isinstance(target, list) else V(target), "m": m, "a": list(es)}
def PASS(): return {"k": "pass"}
def BLOCK(flow, *stmts): return {"k": "block", "flow": flow, "b": list(stmts)}
def ATOMIC(*s): return BLOCK("atomic", *s)
def SERIAL(*s): return BLOCK("serial", *s)
def PARALLEL(*s): return BLOCK("parallel", *s)
def ONEOF(*s): return BLOCK("oneof", *s)
def IF(*branches, els=None, flow=None):
    brs = [{"c": c, "b": list(b), "flow": flow} for c, b in branches]
    if els is not None:
        brs.append({"c": B(True), "b": list(els), "flow": flow, "else": True})
    return {"k": "if", "brs": brs}
def FOR(flow, var, it, *stmts): return {"k": "for", "flow": flow, "v": var, "it": it, "b": list(stmts)}
def WHILE(flow, cond, *stmts): return {"k": "while", "flow": flow, "c": cond, "b": list(stmts)}
def ANY(var, it, *stmts, cond=None, flow=None, fair=None, bflow=None):
    """block form: `any var in it:`"""
    return {"k": "any", "v": var, "it": it, "c": cond, "b": list(stmts), "flow": flow, "fair": fair, "bflow": bflow}
def CHOOSE(var, it, cond=None, fair=None):
    """concise form: `var = oneof it [if cond]`"""
    return {"k": "any", "v": var, "it": it, "c": cond, "b": None, "flow": None, "fair": fair, "bflow": None}
def BREAK(): return {"k": "break"}
def CONTINUE(): return {"k": "continue"}
def RETURN(e=None): return {"k": "return", "e": e}
def REQUIRE(e): return {"k": "require", "e": e}
def FCALL(name, *args, var=None, recv=None, kw=None):
    return {"k": "call", "n": name, "r": recv, "v": var, "a": list(args), "kw": kw or []}
def LBL(label, s): s = dict(s); s["label"] = label; return s


FLOW = {None: "FLOW_UNKNOWN", "atomic": "FLOW_ATOMIC", "serial": "FLOW_SERIAL",
        "parallel": "FLOW_PARALLEL", "oneof": "FLOW_ONEOF"}
FAIR = {None: "FAIRNESS_LEVEL_UNFAIR", "unfair": "FAIRNESS_LEVEL_UNFAIR", "weak": "FAIRNESS_LEVEL_WEAK",
        "strong": "FAIRNESS_LEVEL_STRONG"}


def ACTION(name, flow, *stmts, fair=None): return {"name": name, "flow": flow, "b": list(stmts), "fair": fair}
def FUNC(name, flow, params, *stmts, defaults=None):
    return {"name": name, "flow": flow, "params": list(params), "b": list(stmts), "defaults": defaults or {}}
def ROLE(name, actions=(), funcs=(), durable=None, ephemeral=None, symmetric=False):
    return {"name": name, "actions": list(actions), "funcs": list(funcs), "durable": durable,
            "ephemeral": ephemeral, "symmetric": symmetric}
def INV(name, kind, body, params=None):
    """kind: always | exists | transition | eventually-always | always-eventually | eventually ; body: expression"""
    return {"name": name, "kind": kind, "e": body, "params": params or []}


def DOM(var, name, kind, limit=None, mat=False, refl=False, div=None, start=0, list_=None, legacy=False):
    """a symmetric domain; list_: name of the constant that holds its values; legacy: symmetric_values"""
    if kind == "interval":
        args = "name=%r" % name + (", limit=%d" % limit if limit is not None else "") + (", divergence=%d" % div if div is not None else "") + (", start=%d" % start if start else "")
        if limit is None: limit = div + 1
        if div is None: div = limit - 1
    else: args = "name=%r, limit=%d" % (name, limit)
    if mat: args += ", materialize=True"
    if refl: args += ", reflection=True"
    code = ["%s = symmetry.%s(%s)" % (var, kind, args.replace("'", '"'))]
    if legacy: code = ["%s = symmetric_values('%s', %d)" % (list_, name, limit)]
    elif list_: code = ["%s = symmetry.%s(%s).values()" % (list_, kind, args.replace("'", '"'))]
    return {"var": var, "name": name, "kind": kind, "limit": limit, "mat": mat or legacy, "refl": refl, "div": div or 0,
            "start": start, "list": list_, "code": code}


def PROG(name, init, actions, roles=(), funcs=(), invs=(), consts=(), opts=None, aopts=None, extra=None):
    p = {"name": name, "init": list(init), "actions": list(actions), "roles": list(roles), "funcs": list(funcs),
         "invs": list(invs), "consts": list(consts), "opts": dict(opts or {}), "aopts": dict(aopts or {})}
    p.update(extra or {})
    return p


# -------------------------------------------------------- fizz JSON (protojson)

def expr_(e): return {"pyExpr": star(e)}


def stmt_json(s):
    k = s["k"]
    if k == "assign": r = {"pyStmt": {"code": "%s = %s" % (star(s["t"]), star(s["e"]))}}
    elif k == "mut": r = {"pyStmt": {"code": "%s.%s(%s)" % (star(s["t"]), s["m"], ", ".join(star(x) for x in s["a"]))}}
    elif k == "raw": r = {"pyStmt": {"code": s["code"]}}
    elif k == "pass": r = {"pyStmt": {"code": "pass"}}
    elif k == "block": r = {"block": block_json(s["b"], s["flow"])}
    elif k == "if":
        r = {"ifStmt": {"branches": [
            {"condition": star(b["c"]), "conditionExpr": expr_(b["c"]), "block": block_json(b["b"], b.get("flow"))}
            for b in s["brs"]]}}
    elif k == "for":
        r = {"forStmt": {"flow": FLOW[s["flow"]], "loopVars": [s["v"]], "pyExpr": star(s["it"]),
                         "iterExpr": expr_(s["it"]), "block": block_json(s["b"], None)}}
    elif k == "while":
        r = {"whileStmt": {"flow": FLOW[s["flow"]], "pyExpr": star(s["c"]), "iterExpr": expr_(s["c"]),
                           "block": block_json(s["b"], None)}}
    elif k == "any":
        a = {"loopVars": [s["v"]], "pyExpr": star(s["it"]), "iterExpr": expr_(s["it"])}
        if s["flow"]: a["flow"] = FLOW[s["flow"]]
        if s["c"] is not None:
            a["condition"] = star(s["c"]); a["conditionExpr"] = expr_(s["c"])
        if s["b"] is not None: a["block"] = block_json(s["b"], s.get("bflow"))
        if s["fair"]: a["fairness"] = {"level": FAIR[s["fair"]]}
        r = {"anyStmt": a}
    elif k == "break": r = {"breakStmt": {}}
    elif k == "continue": r = {"continueStmt": {}}
    elif k == "return": r = {"returnStmt": {} if s["e"] is None else {"pyExpr": star(s["e"]), "expr": expr_(s["e"])}}
    elif k == "require": r = {"requireStmt": {"condition": star(s["e"]), "conditionExpr": expr_(s["e"])}}
    elif k == "call":
        c = {"name": s["n"], "args": [{"pyExpr": star(x), "expr": expr_(x)} for x in s["a"]]
             + [{"name": n, "pyExpr": star(x), "expr": expr_(x)} for n, x in s["kw"]]}
        if s["r"]: c["receiver"] = s["r"]
        if s["v"]: c["vars"] = [s["v"]]
        r = {"callStmt": c}
    else:
        raise ValueError(k)
    if s.get("label"): r["label"] = s["label"]
    return r


def block_json(stmts, flow):
    return {"flow": FLOW[flow], "stmts": [stmt_json(s) for s in stmts]}


def action_json(a):
    return {"name": a["name"], "flow": FLOW[a["flow"]], "fairness": {"level": FAIR[a["fair"]]},
            "block": block_json(a["b"], a["flow"])}


def func_json(f):
    return {"name": f["name"], "flow": FLOW[f["flow"]],
            "params": [dict({"name": p}, **({"defaultPyExpr": star(f["defaults"][p]),
                                             "defaultExpr": expr_(f["defaults"][p])} if p in f["defaults"] else {}))
                       for p in f["params"]],
            "block": block_json(f["b"], f["flow"])}


def role_json(r):
    d = {"name": r["name"], "actions": [action_json(a) for a in r["actions"]],
         "functions": [func_json(f) for f in r["funcs"]]}
    if r["symmetric"]: d["modifiers"] = ["symmetric"]
    for which in ("durable", "ephemeral"):
        if r[which] is not None:
            txt = "[%s]" % ", ".join('"%s"' % x for x in r[which])
            d.setdefault("decorators", []).append(
                {"name": "state", "args": [{"name": which, "pyExpr": txt, "expr": {"pyExpr": which + " = " + txt}}]})
    return d


def inv_json(v):
    kind = v["kind"]
    ops = {"always": ["always"], "exists": ["exists"], "transition": ["transition"],
           "eventually-always": ["eventually", "always"], "always-eventually": ["always", "eventually"],
           "eventually": ["eventually"]}[kind]
    if v.get("form") == "expr":         # the older `invariants:` section
        x = {"name": v["name"]}
        if kind == "eventually-always": x.update(eventually=True, nested={"always": True, "pyExpr": star(v["e"])})
        else: x.update({o: True for o in ops}, pyExpr=star(v["e"]))
        return x
    blk = {"flow": "FLOW_ATOMIC", "stmts": [{"returnStmt": {"pyExpr": star(v["e"]), "expr": expr_(v["e"])}}]}
    if v.get("code"):
        pc = v["code"]
    else:
        pc = "def %s(%s):\n  return %s\n" % (v["name"], ", ".join(v["params"]), star(v["e"]))
    d = {"name": v["name"], "temporalOperators": ops, "block": blk, "pyCode": pc}
    if v["params"]: d["params"] = [{"name": p} for p in v["params"]]
    return d


def yaml_of(p):
    o, lines = p["opts"], []
    def val(x): return "true" if x is True else "false" if x is False else str(x)
    sub = [(k, o[k]) for k in ("max_actions", "max_concurrent_actions", "crash_on_yield") if k in o]
    if sub:
        lines.append("options:")
        lines += ["  %s: %s" % (k, val(v)) for k, v in sub]
    if p["aopts"]:
        lines.append("action_options:")
        for a, kv in p["aopts"].items():
            lines.append('  "%s":' % a)
            lines += ["    %s: %s" % (k, val(v)) for k, v in kv.items()]
    for k in ("deadlock_detection", "liveness", "continue_on_invariant_failures", "continue_path_on_invariant_failures"):
        if k in o:
            lines.append("%s: %s" % (k, val(o[k]) if isinstance(o[k], bool) and k != "liveness" else '"%s"' % o[k]))
    return "\n".join(lines) + ("\n" if lines else "")


def to_fizz(p):
    f = {"sourceInfo": {"fileName": p["name"] + ".fizz"}}
    y = yaml_of(p)
    if y: f["frontMatter"] = {"yaml": y}
    init = {"name": "Init", "flow": FLOW[p.get("init_flow", "atomic")], "block": block_json(p["init"], p.get("init_flow", "atomic"))}
    f["actions"] = [init] + [action_json(a) for a in p["actions"]]
    if p["funcs"]: f["functions"] = [func_json(x) for x in p["funcs"]]
    if p["roles"]: f["roles"] = [role_json(r) for r in p["roles"]]
    invs = [v for v in p["invs"] if v["kind"] != "refines"]
    if invs: f["invariants"] = [inv_json(v) for v in invs]
    st = [{"pyStmt": {"code": "%s = %s" % (n, star(e))}} for n, e in p["consts"]]
    st += [{"pyStmt": {"code": c}} for d in p.get("doms", []) for c in d["code"]]
    st += [{"pyStmt": {"code": c}} for c in p.get("preinit", [])]
    if st: f["stmts"] = st
    for k in ("composition", "refinements"):
        if p.get(k): f[k] = p[k]
    for v in p["invs"]:
        if v["kind"] == "refines":
            f["refinements"] = [{"specs": [{"name": v["abs"]["name"], "expr": {"py_expr": v["abs"]["name"] + ".view"}},
                                           {"name": "_", "expr": {"py_expr": "view"}}]}]
    return f
