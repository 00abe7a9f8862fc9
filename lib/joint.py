"""Several models at once: refinement (a model implements another one) and composition."""
import json, os, re, shutil, tempfile
from .fz import *
from . import fizzrun, fz, gen, tla

ONE = dict(crash_on_yield=False, max_concurrent_actions=1, deadlock_detection=False)
TWO = dict(ONE, max_concurrent_actions=2)


def viewed(p, e):
    """p with the function view() that returns e"""
    return dict(p, funcs=p["funcs"] + [FUNC("view", "atomic", [], RETURN(e))])


def refine(name, abs, av, impl, iv):
    """the model impl is to refine the model abs, seen through the expressions iv and av"""
    a = dict(viewed(abs, av), name=name + "_abs", opts=dict(abs["opts"], deadlock_detection=False))
    v = {"name": "Refines", "kind": "refines", "e": iv, "params": [], "abs": a, "av": av}
    return dict(viewed(impl, iv), name=name, invs=impl["invs"] + [v], opts=dict(impl["opts"], deadlock_detection=False))


def inc(v, m, k=1): return ASSIGN(v, MOD(ADD(V(v), I(k)), I(m)))


once = PROG("c", [ASSIGN("x", I(0))], [ACTION("Up", "atomic", REQUIRE(EQ(V("x"), I(0))), ASSIGN("x", I(1)))], opts=ONE)


def counter(m, opts=ONE): return PROG("c", [ASSIGN("x", I(0))], [ACTION("Up", "atomic", inc("x", m))], opts=opts)


def refinements():
    """a corpus of refinements, about half of which do not hold"""
    out = []
    def add(n, *a): out.append(refine(n, *a))
    X = V("x")
    P2 = lambda *acts, init=(), opts=TWO, **kw: PROG("m", [ASSIGN("x", I(0)), ASSIGN("y", I(0))] + list(init), list(acts), opts=opts, **kw)
    for m in (2, 3, 4):
        add("same_%d" % m, counter(3), X, counter(m), X)
        add("mod_%d" % m, counter(2), X, counter(2 * m), MOD(X, I(2)))
        add("half_%d" % m, counter(m), X, counter(6), ["bin", "//", X, I(2)])
    # other variables change in between, steps are split
    add("stutter", counter(3), X, P2(ACTION("Up", "atomic", inc("x", 3)), ACTION("Y", "atomic", inc("y", 2))), X)
    add("serial", counter(3), X, P2(ACTION("Up", "serial", inc("y", 2), inc("x", 3))), X)
    add("split", counter(3), X, P2(ACTION("Up", "serial", inc("x", 3), inc("x", 3))), X)
    add("jump_atomic", counter(3), X, P2(ACTION("Up", "atomic", inc("x", 4), inc("x", 4))), X)
    add("jump_bad", counter(4), X, P2(ACTION("Up", "atomic", inc("x", 4), inc("x", 4))), X)
    add("lost_update", counter(4), X, P2(ACTION("Up", "serial", ASSIGN("l", X), ASSIGN("x", MOD(ADD(V("l"), I(1)), I(4)))), opts=TWO), X)
    add("lost_update_one", counter(4), X, P2(ACTION("Up", "serial", ASSIGN("l", X), ASSIGN("x", MOD(ADD(V("l"), I(1)), I(4)))), opts=ONE), X)
    # choices within a step
    ch = PROG("a", [ASSIGN("x", I(0))], [ACTION("Pick", "atomic", CHOOSE("v", LIST(I(0), I(1), I(2))), ASSIGN("x", V("v")))], opts=ONE)
    add("choice_all", ch, X, counter(3), X)
    add("choice_more", counter(3), X, dict(ch, name="i"), X)
    add("choice_two", ch, X, P2(ACTION("P", "atomic", CHOOSE("v", LIST(I(0), I(1))), CHOOSE("w", LIST(I(0), I(1))), ASSIGN("x", ADD(V("v"), V("w"))))), X)
    mid = lambda k: PROG("a", [ASSIGN("x", I(0)), ASSIGN("y", I(0))],
                         [ACTION("A", "atomic", REQUIRE(EQ(X, I(0))), ASSIGN("y", I(0)), CHOOSE("v", LIST(I(1), I(2))), ASSIGN("x", V("v"))),
                          ACTION("B", "atomic", REQUIRE(EQ(X, I(3))), ASSIGN("y", I(0)), CHOOSE("v", LIST(I(1), I(2))), ASSIGN("x", V("v"))),
                          ACTION("C", "atomic", REQUIRE(GT(X, I(0))), ASSIGN("x", I(k)))], opts=ONE)
    for k in (0, 3): add("choice_mid_%d" % k, mid(3), X, mid(k), X)
    # the choice of a step is reached from several states
    via = lambda *init: PROG("a", [ASSIGN("x", I(0))],
                             [ACTION("Go", "atomic", REQUIRE(LT(X, I(2))), ASSIGN("x", I(9)), CHOOSE("v", LIST(I(2), I(3))), ASSIGN("x", V("v"))),
                              ACTION("Back", "atomic", REQUIRE(GT(X, I(1))), CHOOSE("v", LIST(*[I(i) for i in init])), ASSIGN("x", V("v")))], opts=ONE)
    add("via_same", via(0, 1), X, via(0, 1), X)
    add("via_part", via(0, 1), X, via(1), X)
    add("via_more", via(0), X, via(0, 1), X)
    # views of several variables
    pair = TUP(X, V("y"))
    par = lambda fl: P2(ACTION("X", fl, inc("x", 2)), ACTION("Y", fl, inc("y", 2)), ACTION("B", fl, inc("x", 2), inc("y", 2)))
    add("pair", par("atomic"), pair, P2(ACTION("B", "atomic", inc("x", 2), inc("y", 2))), pair)
    add("pair_serial", P2(ACTION("B", "atomic", inc("x", 2), inc("y", 2))), pair, P2(ACTION("B", "serial", inc("x", 2), inc("y", 2))), pair)
    add("pair_ok", par("atomic"), pair, P2(ACTION("B", "serial", inc("x", 2), inc("y", 2))), pair)
    add("sum", counter(3), X, P2(ACTION("X", "atomic", ASSIGN("x", I(1))), ACTION("Y", "atomic", ASSIGN("y", I(1)))), ADD(X, V("y")))
    # parallel steps, functions
    add("parallel", counter(3), X, P2(ACTION("B", "parallel", inc("x", 3), inc("y", 2))), X)
    add("parallel_pair", par("atomic"), pair, P2(ACTION("B", "parallel", inc("x", 2), inc("y", 2))), pair)
    # equal and similar values: what is the same value shows the same, other values do not
    one, two = I(1), I(2)
    val = lambda *vs: IDX(LIST(*vs), X)
    for n, vs, ws in (
            ("str", [S("a"), S("b")], [S("a"), S("b")]), ("str_int", [S("1"), S("2")], [one, two]), ("str_quoted", [S("ab"), S("b")], [S("'ab'"), S("b")]),
            ("bool", [B(True), B(False)], [B(True), B(False)]), ("bool_str", [B(True), B(False)], [S("True"), S("False")]),
            ("set_order", [SET(one, two), SET(two)], [SET(two, one), SET(two)]), ("set_list", [SET(one), SET(two)], [LIST(one), LIST(two)]),
            ("set_more", [SET(one, two), SET(two)], [SET(one, one), SET(two)]),
            ("dict_order", [DICT((one, two), (two, one)), DICT()], [DICT((two, one), (one, two)), DICT()]), ("dict_value", [DICT((one, two)), DICT()], [DICT((one, one)), DICT()]),
            ("dict_nested", [DICT((one, SET(one, two))), DICT()], [DICT((one, SET(two, one))), DICT()]),
            ("list_order", [LIST(one, two), LIST()], [LIST(two, one), LIST()]), ("list", [LIST(one, two), LIST()], [LIST(one, two), LIST()]),
            ("list_of_sets", [LIST(SET(one, two)), LIST()], [LIST(SET(two, one)), LIST()]),
            ("tuple_list", [TUP(one, two), TUP(two, two)], [LIST(one, two), LIST(two, two)]), ("nested", [LIST(LIST(one), two), two], [LIST(one, LIST(two)), two]),
            ("comma", [S("a"), S("b,c")], [S("a,b"), S("c")]), ("digits", [one, I(12)], [I(11), two]), ("digits_ok", [one, I(12)], [one, I(12)]),
            ("rec", [REC(a=one, b=two), REC(a=two, b=two)], [REC(b=two, a=one), REC(b=two, a=two)]), ("rec_bad", [REC(a=one, b=two), REC(a=two, b=two)], [REC(a=one, b=two), REC(a=two, b=one)]),
            ("bag_order", [BAG(one, two, one), BAG()], [BAG(two, one, one), BAG()]), ("bag_count", [BAG(one, two, one), BAG()], [BAG(two, two, one), BAG()]),
            ("gset_order", [GSET(one, two), GSET(two)], [GSET(two, one), GSET(two)]), ("gset_nested", [GSET(LIST(one), LIST(two)), GSET()], [GSET(LIST(two), LIST(one)), GSET()]),
            ("gmap_order", [GMAP((one, two), (two, one)), GMAP()], [GMAP((two, one), (one, two)), GMAP()])):
        add("value_" + n, counter(2), val(*vs), counter(2), val(*ws))
        add("once_" + n, once, val(*vs), once, val(*ws))
    # instances, and what their crashes do
    O = dict(crash_on_yield=True, max_concurrent_actions=2)
    def inst(m, **kw):
        return PROG("m", [ASSIGN("n", NEWROLE("N"))], [], opts=O,
                    roles=[ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0)), ASSIGN(SELF("b"), I(0))),
                                      ACTION("Up", "serial", ASSIGN(SELF("b"), MOD(ADD(SELF("b"), I(1)), I(2))),
                                             ASSIGN(SELF("a"), MOD(ADD(SELF("a"), I(1)), I(m))))], **kw)])
    na, nb = ATTR(V("n"), "a"), ATTR(V("n"), "b")
    add("field_ok", counter(3), X, inst(3), na)
    add("field_bad", counter(3), X, inst(4), na)
    add("crash_keeps", counter(3), X, inst(3, durable=["a"]), na)
    add("crash_loses", counter(3), X, inst(3, ephemeral=["a"]), na)
    reset = PROG("a", [ASSIGN("x", I(0))], [ACTION("Up", "atomic", inc("x", 3)), ACTION("Lose", "atomic", ASSIGN("x", I(0)))], opts=ONE)
    add("crash_resets", reset, X, inst(3, ephemeral=["a"]), na)
    add("crash_only_b", reset, X, inst(3, ephemeral=["b"]), nb)
    add("abstract_role", inst(3), na, counter(3), X)
    add("abstract_role_crash", inst(3, ephemeral=["a"]), na, reset, X)
    add("abstract_role_pair", inst(3, ephemeral=["a"]), TUP(na, nb), inst(3, ephemeral=["a"]), TUP(na, nb))
    return out


def mutated(rnd, p):
    """p with something changed: an action less, or another constant somewhere"""
    p = json.loads(json.dumps(p))
    acts = p["actions"]
    if len(acts) > 1 and rnd.random() < .5:
        acts.pop(rnd.randrange(len(acts))); return p
    spots = []
    def walk(x):
        if isinstance(x, list):
            if len(x) == 4 and x[0] == "bin": spots.extend(y for y in x[2:] if y[0] == "int" and (x[1] != "%" or y is x[2]))
            for y in x: walk(y)
        elif isinstance(x, dict):
            if x.get("k") == "assign" and x["t"][0] == "var" and x["e"][0] == "int": spots.append(x["e"])
            for y in x.values(): walk(y)
    walk([a["b"] for a in acts] + [r["actions"] for r in p["roles"]])
    if spots:
        s = rnd.choice(spots); s[1] = max(0, s[1] + rnd.choice([-1, 1]))
    return p


def random_refinement(rnd, profile, name):
    """a random model, and one that is the same or nearly the same, seen through a random view"""
    p = gen.program(rnd, profile, name)
    p["invs"] = []
    vs = [s["t"][1] for s in p["init"] if s["k"] == "assign" and s["t"][0] == "var" and s["e"][0] == "int"]
    vs = sorted(set(vs))
    if not vs: return None
    es = [V(v) for v in rnd.sample(vs, rnd.randint(1, len(vs)))]
    if rnd.random() < .3: es[0] = MOD(es[0], I(2))
    view = es[0] if len(es) == 1 else TUP(*es)
    a = c = p
    k = rnd.random()
    if k < .3: a = mutated(rnd, p)
    elif k < .75: c = mutated(rnd, p)
    return refine(name, a, view, c, view)


# ------------------------------------------------------------------ composition

def compose(name, parts, invs):
    """parts: (model, view); invs: assertions over the variables of the parts, V("a").x etc."""
    ps = [dict(viewed(p, e), name="part%d" % i, invs=[], opts=dict(p["opts"], deadlock_detection=False)) for i, (p, e) in enumerate(parts)]
    j = PROG(name, [], [], invs=invs, opts=ONE)
    j["composition"] = {"specs": [{"name": p["name"], "expr": {"py_expr": p["name"] + ".view"}} for p in ps]}
    return {"name": name, "parts": ps, "views": [e for _, e in parts], "joint": j, "invs": invs, "opts": {}}


def AT(i, x): return ATTR(V("part%d" % i), x)
def BF(i, x): return ATTR(ATTR(V("before"), "part%d" % i), x)
def AF(i, x): return ATTR(ATTR(V("after"), "part%d" % i), x)
def ALWAYS(n, e): return INV(n, "always", e)
def TRANS(n, e): return INV(n, "transition", e, ["before", "after"])


def compositions():
    """a corpus of compositions, about half of which violate something"""
    out = []
    def add(n, parts, *invs): out.append(compose(n, parts, list(invs)))
    X = V("x")
    c = counter
    P2 = lambda *acts, opts=TWO: PROG("m", [ASSIGN("x", I(0)), ASSIGN("y", I(0))], list(acts), opts=opts)
    for k in (2, 3, 4):
        add("sync_%d" % k, [(c(2), X), (c(2 * k), MOD(X, I(2)))], ALWAYS("Same", EQ(AT(0, "x"), MOD(AT(1, "x"), I(2)))))
        add("sync_bad_%d" % k, [(c(2), X), (c(2 * k), MOD(X, I(2)))], ALWAYS("Same", EQ(AT(0, "x"), AT(1, "x"))))
        add("larger_%d" % k, [(c(3), X), (c(k), X)], ALWAYS("Same", EQ(AT(0, "x"), AT(1, "x"))))
        add("smaller_%d" % k, [(c(k), X), (c(3), X)], ALWAYS("Less", LT(AT(0, "x"), I(2))), ALWAYS("Same", EQ(AT(0, "x"), AT(1, "x"))))
    other = P2(ACTION("X", "atomic", inc("x", 2)), ACTION("Y", "atomic", inc("y", 3)))
    add("private", [(other, X), (c(2), X)], ALWAYS("Y", LT(AT(0, "y"), I(3))))
    add("private_bad", [(other, X), (c(2), X)], ALWAYS("Y", LT(ADD(AT(0, "y"), AT(1, "x")), I(3))))
    add("transition", [(other, X), (c(2), X)], TRANS("Once", OR(EQ(BF(0, "y"), AF(0, "y")), EQ(BF(1, "x"), AF(1, "x")))))
    add("transition_bad", [(other, X), (c(2), X)], TRANS("Up", OR(EQ(AF(0, "x"), I(1)), EQ(BF(0, "y"), AF(0, "y")))))
    add("transition_sync", [(c(3), X), (c(3), X)], TRANS("Both", EQ(SUB(AF(0, "x"), BF(0, "x")), SUB(AF(1, "x"), BF(1, "x")))))
    add("transition_free", [(c(4), MOD(X, I(2))), (c(4), MOD(X, I(2)))], TRANS("Both", EQ(AF(0, "x"), AF(1, "x"))), ALWAYS("Parity", EQ(MOD(AT(0, "x"), I(2)), MOD(AT(1, "x"), I(2)))))
    # steps that only one part changes something in
    add("alone", [(other, X), (other, X)], TRANS("Y", OR(EQ(BF(0, "y"), AF(0, "y")), EQ(BF(1, "y"), AF(1, "y")))))
    add("alone_ok", [(other, X), (c(2), X)], TRANS("Some", OR(NE(BF(0, "y"), AF(0, "y")), NE(BF(0, "x"), AF(0, "x")))))
    # choices within steps, reached from several states
    via = lambda *init: PROG("a", [ASSIGN("x", I(0))],
                             [ACTION("Go", "atomic", REQUIRE(LT(X, I(2))), ASSIGN("x", I(9)), CHOOSE("v", LIST(I(2), I(3))), ASSIGN("x", V("v"))),
                              ACTION("Back", "atomic", REQUIRE(GT(X, I(1))), CHOOSE("v", LIST(*[I(i) for i in init])), ASSIGN("x", V("v")))], opts=ONE)
    for i in range(2):
        for j in (2, 3):
            add("via_%d_%d" % (i, j), [(via(0, 1), X), (via(0, 1), X)], TRANS("No", NOT(AND(EQ(BF(0, "x"), I(i)), EQ(AF(1, "x"), I(j))))))
    add("via_always", [(via(0, 1), X), (via(1), X)], ALWAYS("Less", LT(AT(1, "x"), I(3))))
    add("via_ok", [(via(0, 1), X), (via(1), X)], TRANS("No", NOT(AND(EQ(BF(0, "x"), I(3)), EQ(AF(1, "x"), I(2))))))
    # three parts
    add("three", [(c(2), X), (c(4), MOD(X, I(2))), (c(2), X)], ALWAYS("Same", EQ(AT(0, "x"), AT(2, "x"))))
    add("three_bad", [(c(2), X), (c(4), MOD(X, I(2))), (c(2), X)], ALWAYS("Same", EQ(AT(1, "x"), AT(2, "x"))))
    for ks in ((2, 3, 3), (3, 2, 3), (3, 3, 2), (4, 3, 3), (3, 3, 4)):
        add("three_%d%d%d" % ks, [(c(k), X) for k in ks], ALWAYS("Less", LT(ADD(AT(0, "x"), ADD(AT(1, "x"), AT(2, "x"))), I(3))), TRANS("T", NE(ADD(BF(2, "x"), AF(0, "x")), I(2))))
    # views that are collections, and numbers of several digits
    one, two = I(1), I(2)
    for n, vs, ws in (("set", [SET(one, two), SET(two)], [SET(two, one), SET(two)]), ("set_list", [SET(one), SET(two)], [LIST(one), LIST(two)]),
                      ("dict", [DICT((one, two), (two, one)), DICT()], [DICT((two, one), (one, two)), DICT()]), ("list", [LIST(one, two), LIST()], [LIST(two, one), LIST()]),
                      ("digits", [one, I(12)], [I(11), two]), ("str", [S("1"), S("a")], [one, S("a")]), ("swap", [one, two], [two, one])):
        add("value_" + n, [(c(2), IDX(LIST(*vs), X)), (c(2), IDX(LIST(*ws), X))], ALWAYS("Never", EQ(AT(0, "x"), SUB(I(0), I(1)))))
        add("once_" + n, [(once, IDX(LIST(*vs), X)), (once, IDX(LIST(*ws), X))], ALWAYS("Never", EQ(AT(0, "x"), I(0))))
        add("value_" + n + "_t", [(c(2), IDX(LIST(*vs), X)), (c(2), IDX(LIST(*ws), X))], TRANS("Same", EQ(AF(0, "x"), AF(1, "x"))))
    # several assertions
    par = EQ(AT(0, "x"), AT(1, "x"))
    for n, i1, i2 in (("aa", ALWAYS("A", par), ALWAYS("B", LT(AT(0, "x"), I(2)))), ("at", ALWAYS("A", par), TRANS("B", NE(AF(0, "x"), I(2)))),
                      ("ta", TRANS("B", NE(AF(0, "x"), I(2))), ALWAYS("A", par)), ("tt", TRANS("A", EQ(BF(0, "x"), BF(1, "x"))), TRANS("B", NE(BF(1, "x"), I(2))))):
        add("many_" + n, [(c(3), X), (c(3), X)], i1, i2)
    # instances
    inst = lambda m, d: PROG("m", [ASSIGN("x", I(0)), ASSIGN("n", NEWROLE("N"))], [ACTION("X", "atomic", inc("x", 2))], opts=ONE,
                roles=[ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("Up", "atomic", ASSIGN(SELF("a"), MOD(ADD(SELF("a"), I(1)), I(m))))])])
    na = lambda i: ATTR(AT(i, "n"), "a")
    add("role", [(inst(3, 0), ATTR(V("n"), "a")), (c(3), X)], ALWAYS("Same", EQ(na(0), AT(1, "x"))))
    add("role_bad", [(inst(3, 0), ATTR(V("n"), "a")), (c(3), X)], ALWAYS("Less", LT(na(0), I(2))))
    add("role_alone", [(inst(3, 0), X), (c(2), X)], ALWAYS("Less", LT(na(0), I(2))))
    add("role_alone_ok", [(inst(2, 0), X), (c(2), X)], ALWAYS("Less", LT(na(0), I(2))))
    both = [(inst(3, 0), X), (inst(2, 0), X)]
    add("roles", both, ALWAYS("Less", LT(na(0), I(3))))
    add("roles_bad", both, ALWAYS("Less", LT(ADD(na(0), na(1)), I(3))))
    add("roles_sum", both, ALWAYS("Less", LT(ADD(na(0), na(1)), I(4))))
    fb = lambda k, i: ATTR(ATTR(ATTR(V(k), "part%d" % i), "n"), "a")
    add("roles_transition", both, TRANS("One", OR(EQ(fb("before", 0), fb("after", 0)), EQ(fb("before", 1), fb("after", 1)))))
    add("roles_transition_alone", [(inst(3, 0), X), (c(2), X)], TRANS("Up", LE(fb("before", 0), fb("after", 0))))
    add("roles_transition_mod", both, TRANS("Mod", NE(SUB(fb("after", 0), fb("before", 0)), I(2))))
    add("roles_sync", [(inst(3, 0), ATTR(V("n"), "a")), (inst(3, 0), ATTR(V("n"), "a"))], ALWAYS("Same", EQ(na(0), na(1))), TRANS("S", EQ(fb("after", 0), fb("after", 1))))
    return out


def random_composition(rnd, profile, name):
    ps, es, vs = [], [], []
    for i in range(2):
        p = gen.program(rnd, profile, name) if i == 0 or rnd.random() < .5 else mutated(rnd, ps[0])
        p["invs"] = []
        v = sorted({s["t"][1] for s in p["init"] if s["k"] == "assign" and s["t"][0] == "var" and s["e"][0] == "int"})
        if not v: return None
        ps.append(p); vs.append(v)
        es.append(V(v[0]) if rnd.random() < .6 else MOD(V(v[0]), I(2)))
    x, y = rnd.choice(vs[0]), rnd.choice(vs[1])
    k = rnd.random()
    if k < .4: inv = ALWAYS("R", rnd.choice([LE, NE, EQ])(ADD(AT(0, x), AT(1, y)), I(rnd.randint(1, 4))))
    elif k < .6: inv = ALWAYS("R", EQ(MOD(AT(0, vs[0][0]), I(2)), MOD(AT(1, vs[1][0]), I(2))))
    else: inv = TRANS("R", rnd.choice([LE, NE, OR_])(ADD(BF(0, x), AF(1, y)), ADD(BF(1, y), I(rnd.randint(0, 2)))))
    return compose(name, list(zip(ps, es)), [inv])


def OR_(a, b): return OR(LE(a, b), EQ(a, I(2)))


def decide(cases, timeout=600):
    """what TLC says about compositions: per case the number of joint steps and those that violate something"""
    d = tempfile.mkdtemp(prefix="fzc")
    try:
        fn = os.path.join(d, "cases.json")
        with open(fn, "w") as f:
            json.dump([{"specs": [tla.to_tla(p) for p in c["parts"]], "names": [p["name"] for p in c["parts"]],
                        "views": c["views"], "joint": tla.to_tla(c["joint"])} for c in cases], f)
        rc, out = tla.tlc("Compose", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", env={"FIZZ_CASES": fn}, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if "Model checking completed. No error has been found" not in out:
        raise tla.ToolError("TLC failed: " + "\n".join(l for l in out.splitlines() if not l.startswith('"@'))[-3000:])
    res = [None] * len(cases)
    for l in out.splitlines():
        if not l.startswith('"@J'): continue
        e = json.loads(json.loads(l)[2:])
        res[e["c"] - 1] = (e["n"], [(tla.canon(x["b"]), tla.canon(x["a"]), sorted(j - 1 for j in x["always"]), sorted(j - 1 for j in x["trans"])) for x in e["f"]])
    return res


def run_composition(binary, c, args=(), timeout=60):
    files = {p["name"] + ".json": json.dumps(fz.to_fizz(p)) for p in c["parts"]}
    return fizzrun.run(binary, c["joint"], args, files=files, timeout=timeout)


def plain(heap):
    """a printed heap when it holds only numbers, else None"""
    if heap == []: heap = {}
    return {k: v[1] for k, v in heap.items()} if all(v[0] == "i" for v in heap.values()) else None


def judge_composition(c, want, r):
    """None or what is wrong with the report"""
    n, fails = want
    o = r.out
    if r.timeout or r.rc != 0 or "panic:" in r.err or "Stack Trace:" in o: return "the checker fails on a valid composition: %s" % (r.err + o)[-1500:]
    if o.count("PASSED: Model checker completed successfully") != len(c["parts"]): return "the parts do not pass: %s" % o[-800:]
    m = re.search(r"Composed (state|transition) failed invariants: map\[0:\[([\d ]*)\]\]", o)
    if "Error composing transitions" not in o:
        if m: return "a violation is found but no error is reported"
        return "success is reported; %d joint steps violate an assertion, such as %s" % (len(fails), fails[0]) if fails else None
    if not m: return "the composition fails without a violation: %s" % o[-500:]
    idx = sorted(int(x) for x in m.group(2).split())
    ok = [f for f in fails if (f[2] if m.group(1) == "state" else f[3]) == idx and (m.group(1) == "state" or not f[2])]
    if not ok: return "a violation of %s by a %s is reported; the violations are %s" % ([c["invs"][i]["name"] for i in idx], m.group(1), [(f[2], f[3]) for f in fails][:5])
    # the printed step
    t = re.search(r"^Composed transition: (.*)$", o, re.M)
    if m.group(1) == "transition":
        if not t: return "the violating transition is not printed"
        got = [(json.loads(a), json.loads(b)) for a, b in re.findall(r"\((\{.*?\}) -> (\{.*?\})\) ", t.group(1) + " ")] if all(plain(h) is not None for f in ok for h in f[0]) else None
        if got is not None and not any([(plain(x), plain(y)) for x, y in zip(f[0], f[1])] == got for f in ok):
            return "the reported transition %s does not violate %s" % (got, idx)
    else:
        s = re.search(r"Failed Node: \[(.*?)\]\n", o, re.S)
        got = [json.loads(x.replace('\\"', '"')) for x in re.findall(r"State: (\{.*\})", s.group(1))] if s and all(plain(h) is not None for f in ok for h in f[1]) else None
        if got is not None and not any([plain(y) for y in f[1]] == got for f in ok):
            return "the reported state %s does not violate %s" % (got, idx)
    return None
