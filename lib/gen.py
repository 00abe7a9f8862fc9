"""Random finite-state programs.  Every program is type-correct and finite by construction:
variables range over 0..2, loops are bounded, locals are assigned before use."""
import random
from .fz import *

OPT = dict(deadlock_detection=False)


# collection-valued variables: initial value, and the mutable collections inside (path, kind)
def _p(*steps): return lambda e: _walk(e, steps)
def _walk(e, steps):
    for st in steps: e = ATTR(e, st[1:]) if isinstance(st, str) and st.startswith(".") else IDX(e, S(st) if isinstance(st, str) else I(st))
    return e


SHAPES = [
    (LIST(I(0)), [(_p(), "list")]),
    (LIST(I(0), I(1)), [(_p(), "cell")]),
    (SET(I(1)), [(_p(), "set")]),
    (BAG(I(0)), [(_p(), "bag")]),
    (GSET(I(0)), [(_p(), "set")]),
    (DICT((S("a"), I(0)), (S("b"), I(1))), [(_p(), "dict")]),
    (GMAP((S("a"), I(0)), (S("b"), I(1))), [(_p(), "dict")]),
    (DICT((S("a"), LIST()), (S("b"), SET())), [(_p("a"), "list"), (_p("b"), "set")]),
    (TUP(LIST(), DICT((S("a"), I(0)), (S("b"), I(0)))), [(_p(0), "list"), (_p(1), "dict")]),
    (TUP(I(1), LIST(I(0), I(0))), [(_p(1), "cell")]),
    (LIST(LIST(I(0), I(1)), LIST()), [(_p(0), "cell"), (_p(1), "list")]),
    (REC(f=LIST(), g=SET()), [(_p(".f"), "list"), (_p(".g"), "set")]),
    (STRUCT(f=LIST(), g=BAG()), [(_p(".f"), "list"), (_p(".g"), "bag")]),
    (GMAP((I(0), LIST(I(0)))), [(_p(0), "list")]),
    (DICT((S("a"), TUP(SET(), LIST(I(1))))), [(_p("a", 0), "set"), (_p("a", 1), "list")]),
    (LIST(REC(f=I(0), g=LIST())), [(_p(0, ".g"), "list"), (_p(0), "rec")]),
    (TUP(TUP(LIST(I(0), I(1)), I(2)), I(0)), [(_p(0, 0), "cell")]),
    (DICT((S("a"), REC(f=I(1))), (S("b"), DICT((S("a"), I(0)), (S("b"), I(2))))), [(_p("a"), "rec"), (_p("b"), "dict")]),
]


class Gen:
    """`w` weighs the statement kinds; see PROFILES"""

    def __init__(self, rnd, w, svars, flows=("atomic",), fn=(), role=None, peers=(), budget=6, depth=2, labels=0.0, infn=False):
        self.r, self.w, self.svars, self.flows = rnd, w, list(svars), flows
        self.fn, self.role, self.peers, self.labels = list(fn), role, list(peers), labels
        self.infn = infn
        self.budget, self.maxdepth, self.n = budget, depth, 0
        self.coll = []      # (expression of a mutable collection, kind)
        self.fors = None    # name of a variable that holds a list of role instances, and what to do with one

    # -- expressions
    def tgt(self): return self.r.choice(self.svars)

    def atom(self, loc):
        x = self.r.random()
        if x < 0.35: return I(self.r.randrange(3))
        if loc and x < 0.6: return V(self.r.choice(sorted(loc)))
        return self.tgt()

    def collread(self, loc):
        e, k = self.r.choice(self.coll)
        if k == "cell": return IDX(e, I(self.r.randrange(2)))
        if k == "rec": return ATTR(e, "f")
        if k == "dict": return IDX(e, S(self.r.choice("ab")))
        return MOD(CALL("len", e), I(3))

    def collstmt(self, flow, loc):
        r = self.r
        e, k = r.choice(self.coll)
        v = self.expr(loc)
        if k == "cell": return ASSIGN(IDX(e, I(r.randrange(2))), v)
        if k == "rec": return ASSIGN(ATTR(e, "f"), v)
        if k == "dict": return ASSIGN(IDX(e, S(r.choice("ab"))), v)
        if k == "set": return MUT(e, r.choice(("add", "add", "discard")), v)
        if flow in ("oneof", "parallel"): return MUT(e, "clear")
        add = MUT(e, "append" if k == "list" else "add", v)
        if r.random() < 0.2 and k == "list": add = MUT(e, "insert", I(0), v)
        full = MUT(e, "clear") if r.random() < 0.5 or k == "bag" else MUT(e, "pop", I(0))
        return IF((LT(CALL("len", e), I(2)), [add]), els=[full])

    def expr(self, loc):
        x = self.r.random()
        if self.coll and self.r.random() < 0.25: return self.collread(loc)
        if x < 0.3: return I(self.r.randrange(3))
        if x < 0.55: return MOD(ADD(self.atom(loc), I(self.r.choice((1, 2)))), I(3))
        if x < 0.7: return MOD(ADD(self.atom(loc), self.atom(loc)), I(3))
        if x < 0.85: return IFE(self.cond(loc, 0), self.atom(loc), self.atom(loc))
        return self.atom(loc)

    def cond(self, loc, d=1):
        x = self.r.random()
        if d and x < 0.15: return AND(self.cond(loc, d - 1), self.cond(loc, d - 1))
        if d and x < 0.3: return OR(self.cond(loc, d - 1), self.cond(loc, d - 1))
        if d and x < 0.38: return NOT(self.cond(loc, d - 1))
        op = self.r.choice(("==", "!=", "<", "<=", ">"))
        return BIN(op, self.r.choice((self.tgt(), self.atom(loc))), self.r.choice((I(self.r.randrange(3)), self.atom(loc))))

    def items(self, loc, n=None):
        if self.coll and self.r.random() < 0.2:
            e, k = self.r.choice(self.coll)
            if k in ("cell", "set"): return e
            if k in ("list", "bag"): return BIN("+", CALL("sorted", e), LIST(I(0)))
        n = n or self.r.choice((1, 2, 2, 3))
        x = self.r.random()
        if x < 0.5: return LIST(*[I(i) for i in self.r.sample(range(3), n)])
        if x < 0.8: return CALL("range", I(n))
        return CALL("range", ADD(self.atom(loc), I(self.r.choice((0, 1)))))

    # -- statements; flow is that of the enclosing block, loc the assigned locals, loop: inside a loop
    def block(self, flow, loc, depth, n=None, loop=False, tail=True):
        loc = set(loc)
        n = n or self.r.choice((1, 2, 2, 3))
        out = []
        for i in range(n):
            if self.budget <= 0 and out: break
            s = self.stmt(flow, loc, depth, loop, i == n - 1 and tail)
            out += s
            if s[-1]["k"] in ("break", "continue", "return"): break
        return out

    def kinds(self, flow, depth, loop, last):
        w = dict(self.w)
        if depth <= 0:
            for k in ("if", "any", "for", "while", "atomic", "serial", "parallel", "oneof"): w.pop(k, None)
        if not loop: w.pop("break", None); w.pop("continue", None)
        if not last or flow in ("oneof", "parallel"):
            w.pop("return", None)
        if not last:
            w.pop("break", None); w.pop("continue", None)
        if flow in ("oneof", "parallel"):
            for k in ("while", "loc", "for", "require"): w.pop(k, None)
            if "parallel" in self.w: w.pop("if", None)
        w.pop("parfor", None)
        if flow == "atomic":
            for k in ("serial", "parallel"): w.pop(k, None)
        w = {k: v for k, v in w.items() if v}
        if self.coll: w["mut"] = 3
        if self.fors and flow not in ("oneof", "parallel") and depth > 0: w["fors"] = 2.5
        if not self.fn: w.pop("call", None)
        if not self.peers: w.pop("rcall", None)
        return w

    def sub(self, flow):
        """flow of a nested loop/any"""
        if flow == "atomic": return "atomic"
        return self.r.choice([f for f in ("atomic", "serial") if f in self.flows] or ["atomic"])

    def stmt(self, flow, loc, depth, loop, last):
        self.budget -= 1
        w = self.kinds(flow, depth, loop, last)
        k = self.r.choices(list(w), list(w.values()))[0]
        r = self.r
        s = None
        if k == "assign": s = ASSIGN(self.tgt(), self.expr(loc))
        elif k == "loc":
            self.n += 1
            x = "l%d" % self.n
            s = ASSIGN(x, self.expr(loc)); loc.add(x)
        elif k == "mut": s = self.collstmt(flow, loc)
        elif k == "fors": s = self.forroles(flow, loc, depth)
        elif k == "pass": s = PASS()
        elif k == "require": s = REQUIRE(self.cond(loc))
        elif k == "choose":
            t = self.tgt()
            if t[0] == "var" and r.random() < 0.6 or flow in ("oneof", "parallel") and t[0] == "var":
                s = CHOOSE(t[1], self.items(loc), cond=self.cond(loc) if r.random() < 0.3 else None)
            elif flow in ("oneof", "parallel"): s = ASSIGN(t, self.expr(loc))
            else:
                self.n += 1
                x = "l%d" % self.n
                s = CHOOSE(x, self.items(loc), cond=LT(V(x), I(2)) if r.random() < 0.3 else None)
                loc.add(x)
        elif k == "if":
            nb = r.choice((1, 1, 2))
            fl = r.choice((None, None, "atomic", "oneof" if "oneof" in self.w else None)) if flow != "atomic" else None
            if flow in ("oneof", "parallel"): fl = fl or "atomic"
            inner = fl or flow
            if fl == "oneof" and not last and flow == "parallel": fl = inner = "atomic"
            brs = [(self.cond(loc), self.block(inner, loc, depth - 1, r.choice((1, 2)), loop and inner != "oneof", last)) for _ in range(nb)]
            els = self.block(inner, loc, depth - 1, 1, loop and inner != "oneof", last) if r.random() < 0.5 else None
            s = IF(*brs, els=els, flow=fl)
        elif k == "any":
            self.n += 1
            x = "v%d" % self.n
            fl = self.sub(flow)
            cond = LT(V(x), I(2)) if r.random() < 0.2 else self.cond(loc | {x}) if r.random() < 0.15 else None
            s = ANY(x, self.items(loc), *self.block(fl, loc | {x}, depth - 1, r.choice((1, 2)), loop, last),
                    cond=cond, flow=fl, bflow=fl)
        elif k == "for":
            self.n += 1
            x = "v%d" % self.n
            fl = self.sub(flow)
            if "parallel" in self.w and flow != "atomic" and r.random() < 0.3 or "parfor" in self.w and flow == "atomic" and r.random() < 0.2:
                fl = "parallel"
            body = self.block(fl if fl != "parallel" else "atomic", loc | {x}, depth - 1, r.choice((1, 2)), fl != "parallel")
            if fl == "parallel": body = [ATOMIC(*body)]
            s = FOR(fl, x, self.items(loc, r.choice((1, 2, 2))), *body)
        elif k == "while":
            self.n += 1
            x = "l%d" % self.n
            fl = self.sub(flow)
            body = [ASSIGN(x, ADD(V(x), I(1)))] + self.block(fl, loc | {x}, depth - 1, r.choice((1, 2)), True)
            c = LT(V(x), I(r.choice((1, 2))))
            if r.random() < 0.3: c = AND(c, self.cond(loc))
            loc.add(x)
            return [ASSIGN(x, I(0)), WHILE(fl, c, *body)]
        elif k in ("atomic", "serial"):
            s = BLOCK(k, *self.block(k, loc, depth - 1, r.choice((2, 2, 3)), loop, last))
        elif k == "parallel":
            s = BLOCK(k, *[self.stmt(k, set(loc), depth - 1, False, True)[0] for _ in range(r.choice((2, 2, 3)))])
        elif k == "oneof":
            s = BLOCK(k, *[self.stmt(k, set(loc), depth - 1, False, True)[0] for _ in range(r.choice((2, 2, 3)))])
        elif k == "break": s = BREAK()
        elif k == "continue": s = CONTINUE()
        elif k == "return": s = RETURN(self.expr(loc) if self.infn or r.random() < 0.7 else None)
        elif k in ("call", "rcall"):
            f, ps, recv, val = r.choice(self.fn if k == "call" else self.peers)
            var = None
            if val and r.random() < 0.7:
                t = self.tgt()
                if t[0] == "var" and (flow in ("oneof", "parallel") or r.random() < 0.5): var = t[1]
                elif flow not in ("oneof", "parallel"):
                    self.n += 1
                    var = "l%d" % self.n
                    loc.add(var)
            s = FCALL(f, *[self.expr(loc - {var}) for _ in ps], var=var, recv=recv)
            if self.role: self.guard = True
        if r.random() < self.labels: s = LBL("s%d" % r.randrange(4), s)
        return [s]


    def forroles(self, flow, loc, depth):
        """a loop or a choice over role instances that updates the instance"""
        r = self.r
        self.n += 1
        x = "n%d" % self.n
        src, field, peers = self.fors
        fl = self.sub(flow)
        st = lambda: ASSIGN(ATTR(V(x), field), MOD(ADD(ATTR(V(x), field), I(r.choice((1, 1, 2)))), I(3)))
        body = [st()]
        if r.random() < 0.5: body.append(r.choice((st, lambda: ASSIGN(self.tgt(), MOD(ADD(self.tgt(), ATTR(V(x), field)), I(3)))))())
        if peers and r.random() < 0.4:
            f, ps, recv, val = r.choice(peers)
            body.insert(r.randrange(2), FCALL(f, *[self.expr(loc) for _ in ps], recv=x))
        if r.random() < 0.3: return ANY(x, V(src), *body, flow=fl, bflow=fl)
        if flow != "atomic" and r.random() < 0.3: return FOR("parallel", x, V(src), ATOMIC(*body))
        return FOR(fl, x, V(src), *body)


BASE = {"assign": 5, "require": 1, "if": 1.5, "loc": 0.7, "pass": 0.3}
PROFILES = {
    "atomic": dict(w=dict(BASE, require=2.5, oneof=0.6, any=0.7, call=0.8, loc=1), flows=("atomic",), act=("atomic",), nfun=1, conc=(1, 2)),
    "serial": dict(w=dict(BASE, atomic=1, serial=0.5, loc=1.2, require=1.2), flows=("atomic", "serial"), act=("serial", "serial", "atomic"), conc=(1, 2, 2, 3)),
    "choice": dict(w=dict(BASE, any=2, oneof=2, choose=2, atomic=0.5, call=0.3), flows=("atomic", "serial"), act=("atomic", "serial", "oneof"), nfun=0, conc=(1, 2)),
    "parallel": dict(w=dict(BASE, require=0, parallel=2.5, atomic=1, serial=1.2, oneof=0.4), flows=("atomic", "serial"), act=("parallel", "serial", "parallel"), conc=(1, 1, 2), bud=5),
    "loops": dict(w={"assign": 4, "require": 0.5, "if": 1.5, "loc": 0.5, "for": 2, "while": 1.5, "break": 1, "continue": 1, "return": 0.7, "call": 1, "any": 0.4, "parfor": 1},
                  flows=("atomic", "serial"), act=("atomic", "serial"), nfun=2, conc=(1, 1, 2), bud=7),
    "roles": dict(w={"assign": 5, "require": 1, "if": 1, "loc": 0.6, "rcall": 2.2, "atomic": 0.5, "return": 0.5, "oneof": 0.3, "any": 0.3}, flows=("atomic", "serial"),
                  act=("serial", "serial", "atomic"), conc=(1, 2), roles=True),
    "crash": dict(w={"assign": 5, "require": 1, "if": 1, "loc": 0.5, "rcall": 0.7, "atomic": 0.6, "oneof": 0.3}, flows=("atomic", "serial"),
                  act=("serial", "serial", "atomic"), conc=(1, 1, 2), crash=True, roles=0.6, bud=4),
    "crashpar": dict(w={"assign": 5, "if": 1, "loc": 0.5, "rcall": 0.7, "atomic": 0.6, "parallel": 2}, flows=("atomic", "serial"),
                  act=("parallel", "serial", "parallel"), conc=(1, 1, 2), crash=True, roles=0.8, bud=3),
    "crashflat": dict(w=dict(BASE, atomic=0.8, any=0.4, oneof=0.4), flows=("atomic", "serial"),
                  act=("serial", "serial", "atomic"), conc=(1, 2, 3), crash=True, bud=4),
}


def messages(rnd, name, crash=None):
    """instances that call each other through channels; a bounded number of messages"""
    crash = rnd.random() < 0.3 if crash is None else crash
    w = {"assign": 5, "require": 0.6, "if": 1.2, "loc": 0.6, "atomic": 0.5, "oneof": 0.3, "any": 0.3, "choose": 0.2, "return": 0.5}
    flows = ("atomic", "serial")
    fields = ["u", "v"][:rnd.choice((1, 2))]
    two, chans = rnd.random() < 0.5, rnd.choice((1, 1, 2))
    stubs = ["s", "s2"] if two or rnd.random() < 0.3 else ["s"]
    fsig, funcs = [], []
    for i in range(rnd.choice((1, 1, 2))):
        ps = ["p%d" % j for j in range(rnd.choice((0, 1, 1, 2)))]
        fl = rnd.choice(("atomic", "atomic", "serial"))
        tg = [SELF(f) for f in fields] + [V("x")][:rnd.randrange(2)]
        g = Gen(rnd, w, tg, flows, [], role="Node", budget=3, infn=True, labels=0.1)
        b = g.block(fl, set(ps), 1, rnd.choice((1, 2)))
        if fsig and rnd.random() < 0.5 and b[-1]["k"] != "return":       # a message causes another one
            f, qs, val = fsig[0]
            b.insert(rnd.randrange(len(b) + 1), FCALL(f, *[g.expr(set(ps)) for _ in qs], recv=rnd.choice(stubs)))
        val = b[-1]["k"] == "return"
        if not val and rnd.random() < 0.4: b.append(RETURN(g.expr(set(ps)))); val = True
        funcs.append(FUNC("f%d" % i, fl, ps, *b))
        fsig.append(("f%d" % i, ps, val))
    node_acts = [ACTION("Init", "atomic", *[ASSIGN(SELF(f), I(rnd.randrange(2))) for f in fields])]
    if rnd.random() < 0.3:
        g = Gen(rnd, w, [SELF(f) for f in fields], flows, [], role="Node", budget=2, labels=0.1)
        fl = rnd.choice(flows)
        node_acts.append(ACTION("Step", fl, *g.block(fl, set(), 1, 2)))
    lost = fields[:1]
    kw = rnd.choice(({}, {"ephemeral": lost}, {"durable": lost})) if crash else {}
    def send(g, loc):
        f, ps, val = rnd.choice(fsig)
        as_ = [g.expr(loc) for _ in ps]
        if len(ps) == 2 and rnd.random() < 0.3: return FCALL(f, kw=[[ps[1], as_[1]], [ps[0], as_[0]]], recv=rnd.choice(stubs))
        return FCALL(f, *as_, recv=rnd.choice(stubs))
    def sender(k, tgts, fl, role):
        g = Gen(rnd, {a: b for a, b in w.items() if a != "return"}, tgts, flows if fl == "serial" else ("atomic",), [], role=role, budget=2, labels=0.1)
        head = [REQUIRE(LT(k, I(1))), ASSIGN(k, ADD(k, I(1)))]
        loc = set()
        b = g.block(fl, loc, 1, rnd.choice((1, 1, 2))) if rnd.random() < 0.7 else []
        for _ in range(rnd.choice((1, 2, 2))):
            c = send(g, set())
            x = rnd.random()
            if x < 0.15: c = IF((g.cond(set()), [c]), els=[send(g, set())] if rnd.random() < 0.5 else None)
            elif x < 0.25: c = BLOCK("oneof", c, send(g, set()))
            elif x < 0.35: c = ANY("t", LIST(I(0), I(1)), *[send(g, {"t"})], flow="atomic", bflow="atomic")
            b.insert(rnd.randrange(len(b) + 1), c)
        if fl == "serial" and rnd.random() < 0.3: return head + [BLOCK("parallel", *[ATOMIC(send(g, set())) for _ in range(2)])]
        return [ATOMIC(*head)] + b if fl == "serial" else head + b
    init = [ASSIGN("x", I(0)), ASSIGN("c", CHAN(0))]
    if chans == 2: init.append(ASSIGN("d", CHAN(1)))
    init.append(ASSIGN("n", NEWROLE("Node")))
    if two: init.append(ASSIGN("n2", NEWROLE("Node")))
    for i, s in enumerate(stubs): init.append(ASSIGN(s, STUB(V("d" if chans == 2 and i == 1 else "c"), V("n2" if two and i == 1 else "n"))))
    roles, acts = [ROLE("Node", node_acts, funcs, **kw)], []
    if rnd.random() < 0.7:
        fl = rnd.choice(("serial", "serial", "atomic"))
        roles.append(ROLE("Cli", [ACTION("Init", "atomic", ASSIGN(SELF("k"), I(0))), ACTION("Go", fl, *sender(SELF("k"), [V("x")], fl, "Cli"))], []))
        init.append(ASSIGN("cl", NEWROLE("Cli")))
    else:
        init.append(ASSIGN("k", I(0)))
        acts.append(ACTION("Send", "atomic", *sender(V("k"), [V("x")], "atomic", None)))
    return PROG(name, init, acts, roles=roles, opts=dict(OPT, max_concurrent_actions=rnd.choice((1, 1, 2)), crash_on_yield=crash))


def program(rnd, prof, name, **over):
    if prof == "messages": return messages(rnd, name)
    P = dict(PROFILES[prof]); P.update(over)
    roles = P.get("roles", False)
    if isinstance(roles, float): roles = rnd.random() < roles
    opts = dict(OPT, max_concurrent_actions=rnd.choice(P.get("conc", (2,))), crash_on_yield=bool(P.get("crash")))
    bud = P.get("bud", 6)
    gvars = ["x", "y"][:rnd.choice((1, 2, 2))]
    lab = P.get("labels", 0.15)
    shape = rnd.choice(SHAPES) if rnd.random() < P.get("data", 0.35) else None
    names = gvars if rnd.random() < 0.25 else []          # parameters that hide a state variable

    def params(k): return [rnd.choice(names) if names and j == 0 and rnd.random() < 0.7 else "p%d" % j for j in range(k)]

    def data(g, e):
        if shape: g.coll = [(path(e), kind) for path, kind in shape[1]]
        return g

    def flow(): return rnd.choice(P["act"])

    def body(g, fl):
        if fl in ("oneof", "parallel"):
            return [g.stmt(fl, set(), 2, False, True)[0] for _ in range(rnd.choice((2, 2, 3)))]
        return g.block(fl, set(), 2, rnd.choice((2, 3, 3)))

    if not roles:
        init = [ASSIGN(v, I(rnd.randrange(2))) for v in gvars]
        if shape: init.append(ASSIGN("c", shape[0]))
        if P.get("initchoice", rnd.random() < 0.15): init[0] = CHOOSE(gvars[0], LIST(I(0), I(1)))
        funcs = []
        fsig = []
        for i in range(P.get("nfun", 0)):
            if rnd.random() < 0.3: continue
            ps = params(rnd.choice((0, 1)))
            g = data(Gen(rnd, {k: v for k, v in P["w"].items()}, [V(v) for v in gvars if v not in ps] or [V(ps[0])], ("atomic",), fsig, budget=3, infn=True), V("c"))
            b = g.block("atomic", set(ps), 1, rnd.choice((1, 2)))
            val = b[-1]["k"] == "return" or rnd.random() < 0.8
            if val and b[-1]["k"] != "return": b.append(RETURN(g.expr(set(ps))))
            funcs.append(FUNC("f%d" % i, "atomic", ps, *b))
            fsig = fsig + [("f%d" % i, ps, None, val)]
        acts = []
        for i in range(P.get("nact", rnd.choice((1, 2, 2)))):
            fl = flow()
            g = data(Gen(rnd, P["w"], [V(v) for v in gvars], P["flows"], fsig if fl == "atomic" else [], budget=bud, labels=lab), V("c"))
            acts.append(ACTION("A%d" % i, fl, *body(g, fl)))
        ao = {rnd.choice(acts)["name"]: {"crash_on_yield": False}} if P.get("crash") and rnd.random() < 0.3 else {}
        if opts["max_concurrent_actions"] > 1 and rnd.random() < 0.25:
            ao.setdefault(rnd.choice(acts)["name"], {})["max_concurrent_actions"] = rnd.choice((1, 1, 2))
        p = PROG(name, init, acts, funcs=funcs, opts=opts, aopts=ao)
    else:
        # Node (callee) and Cli (caller) or two Nodes
        fields = ["u", "v"][:rnd.choice((1, 2))]
        fsig, funcs = [], []
        for i in range(rnd.choice((1, 1, 2))):
            fl = rnd.choice(("atomic", "serial", "serial"))
            ps = params(rnd.choice((0, 1)))
            g = data(Gen(rnd, {k: v for k, v in P["w"].items() if k != "rcall"}, [SELF(f) for f in fields] + [V("x")][:rnd.randrange(2)],
                    P["flows"], [], role="Node", budget=3, infn=True), SELF("c"))
            b = g.block(fl, set(ps), 1, rnd.choice((1, 2)))
            val = b[-1]["k"] == "return" or rnd.random() < 0.7
            if val and b[-1]["k"] != "return": b.append(RETURN(g.expr(set(ps))))
            funcs.append(FUNC("f%d" % i, fl, ps, *b))
            fsig.append(("f%d" % i, ps, val))
        dur = rnd.choice((None, "d", "d", "e")) if P.get("crash") else None
        node_acts = [ACTION("Init", "atomic", *[ASSIGN(SELF(f), I(rnd.randrange(2))) for f in fields])]
        if shape: node_acts[0]["b"].append(ASSIGN(SELF("c"), shape[0]))
        w2 = {k: v for k, v in P["w"].items() if k != "rcall"}
        if rnd.random() < 0.5:
            fl = flow()
            g = data(Gen(rnd, w2, [SELF(f) for f in fields], P["flows"], [], role="Node", peers=[], budget=bud - 2, labels=lab), SELF("c"))
            node_acts.append(ACTION("Step", fl, *body(g, fl)))
        lost = fields[:1] + (["c"] if shape and rnd.random() < 0.5 else [])
        kw = {} if dur is None else {"durable": lost} if dur == "d" else {"ephemeral": lost}
        node = ROLE("Node", node_acts, funcs, **kw)
        peers = [(f, ps, "a", val) for f, ps, val in fsig]
        g = Gen(rnd, P["w"], [SELF("c"), SELF("c"), V("x")], P["flows"], [], role="Cli", peers=peers, budget=bud, labels=lab)
        fl = flow()
        two = rnd.random() < 0.45 and not P.get("crash")
        if two and rnd.random() < 0.7: g.fors = ("ns", "u", peers)
        b = body(g, fl)
        if not any('"call"' in repr(s).replace("'", '"') for s in b):
            f, ps, recv, val = rnd.choice(peers)
            b.append(FCALL(f, *[g.expr(set()) for _ in ps], recv=recv, var=None))
        ckw = rnd.choice(({}, {"ephemeral": ["c"]})) if P.get("crash") else {}
        # the last instance, so that the choice does not change the names of others
        first = ANY("i", LIST(I(0), I(1)), ASSIGN(SELF("c"), V("i")), flow="atomic", bflow="atomic") if P.get("crash") and rnd.random() < 0.3 else ASSIGN(SELF("c"), I(0))
        cli = ROLE("Cli", [ACTION("Init", "atomic", first), ACTION("Go", fl, *b)], [], **ckw)
        init = [ASSIGN("x", I(0)), ASSIGN("a", NEWROLE("Node"))]
        mixed = two and rnd.random() < 0.35       # the second instance is of another role with the same definitions
        if two: init += [ASSIGN("a2", NEWROLE("Nod2" if mixed else "Node")), ASSIGN("ns", LIST(V("a"), V("a2")))]
        init.append(ASSIGN("b", NEWROLE("Cli")))
        twocli = not P.get("crash") and not two and rnd.random() < 0.2
        if twocli: init.append(ASSIGN("b2", NEWROLE("Cli")))
        if shape and rnd.random() < 0.5:
            # after the instance was made, before anything runs
            g = data(Gen(rnd, w2, [ATTR(V("a"), fields[0])], P["flows"], [], budget=2), ATTR(V("a"), "c"))
            init += [g.collstmt("atomic", set()) for _ in range(rnd.choice((1, 2)))]
        extra = []
        if P.get("crash") and rnd.random() < 0.35:
            # a third instance that loses a field
            oth = ROLE("Oth", [ACTION("Init", "atomic", ASSIGN(SELF("e"), I(0)), ASSIGN(SELF("n"), I(0))),
                               ACTION("S", rnd.choice(("atomic", "serial")), ASSIGN(SELF("e"), I(1)), ASSIGN(SELF("n"), I(1)))],
                       [], **rnd.choice(({"ephemeral": ["e"]}, {"durable": ["n"]}, {"durable": ["e", "n"]})))
            extra = [oth]
            init.insert(rnd.choice((1, 2)), ASSIGN("o", NEWROLE("Oth")))
        acts = []
        if rnd.random() < 0.3 and not P.get("crash"):
            g = Gen(rnd, w2, [V("x")], P["flows"], [], budget=3)
            acts.append(ACTION("T", "atomic", *g.block("atomic", set(), 1, 2)))
        ao = {}
        if P.get("crash") and rnd.random() < 0.3:
            ao = {a: {"crash_on_yield": False} for a in rnd.sample(["Cli.Go"] + ["Node." + a["name"] for a in node_acts[1:]], 1)}
        if opts["max_concurrent_actions"] > 1 and rnd.random() < 0.25:
            k = rnd.choice(["Cli.Go", "Cli#.Go", "Cli#0.Go"] + ["Node" + x + a["name"] for a in node_acts[1:] for x in (".", "#.", "#0.")])
            ao.setdefault(k, {})["max_concurrent_actions"] = 1
        if mixed: extra.append(dict(node, name="Nod2"))
        p = PROG(name, init, acts, roles=[node, cli] + extra, opts=opts, aopts=ao)
    return p
