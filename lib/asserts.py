"""Assertions: random ones for any program of lib/gen.py, and a hand-written corpus."""
from .fz import *


def terms(p):
    """integer-valued terms over the state: (text over one state, function to the term in a record)"""
    out = []
    for s in p["init"]:
        if s["k"] == "any" and s["b"] is None: out.append([s["v"]])
        if s["k"] != "assign" or s["t"][0] != "var": continue
        if s["e"][0] == "newrole":
            r = [r for r in p["roles"] if r["name"] == s["e"][1]][0]
            for a in r["actions"]:
                if a["name"] == "Init":
                    out += [[s["t"][1], t["t"][2]] for t in a["b"] if t["k"] == "assign" and t["t"][0] == "attr" and t["e"][0] == "int"]
        elif s["e"][0] in ("int",): out.append([s["t"][1]])
    return out


def term(t, base=None):
    e = V(t[0]) if base is None else ATTR(V(base), t[0])
    return ATTR(e, t[1]) if len(t) > 1 else e


def atom(rnd, ts, base=None, vals=3):
    t = term(rnd.choice(ts), base)
    if rnd.random() < 0.25: return BIN(rnd.choice(("==", "!=", "<=")), t, term(rnd.choice(ts), base))
    return BIN(rnd.choice(("==", "!=", "<", ">")), t, I(rnd.randrange(vals)))


def always(rnd, ts):
    x = rnd.random()
    if x < 0.3: return atom(rnd, ts)
    if x < 0.8: return OR(atom(rnd, ts), atom(rnd, ts))
    return OR(atom(rnd, ts), OR(atom(rnd, ts), atom(rnd, ts)))


def exists(rnd, ts):
    x = rnd.random()
    if x < 0.4: return atom(rnd, ts)
    return AND(atom(rnd, ts), atom(rnd, ts))


def trans(rnd, ts):
    b, a = lambda: atom(rnd, ts, "before"), lambda: atom(rnd, ts, "after")
    x = rnd.random()
    t = rnd.choice(ts)
    if x < 0.25: return LE(term(t, "before"), term(t, "after"))
    if x < 0.45: return LE(SUB(term(t, "after"), term(t, "before")), I(1))
    if x < 0.8: return OR(b(), a())
    return OR(EQ(term(t, "before"), term(t, "after")), a())


def decorate(rnd, p, kinds, n=(1, 2, 3), **opts):
    """p with random assertions of the given kinds"""
    ts = terms(p)
    p = dict(p, opts=dict(p["opts"], **opts), invs=[])
    for i in range(rnd.choice(n)):
        k = rnd.choice(kinds)
        e = {"always": always, "exists": exists, "transition": trans}[k](rnd, ts)
        p["invs"].append(INV("Inv%d" % i, k, e, ["before", "after"] if k == "transition" else []))
    return p


# ------------------------------------------------------------------ next_states()
NS = ["nexts"]
def NXT(t): return ATTR(ATTR(V("nx"), "state"), t) if isinstance(t, str) else (lambda e: ATTR(e, t[1]) if len(t) > 1 else e)(ATTR(ATTR(V("nx"), "state"), t[0]))
def HOWMANY(c): return CALL("len", COMP(I(1), "nx", NS, c))
def CAN(c): return GT(HOWMANY(c), I(0))
def BY(a): return EQ(ATTR(V("nx"), "action_name"), S(a))
def OF(r): return EQ(ATTR(V("nx"), "role_ref"), S(r))
def NAMED(a): return EQ(ATTR(V("nx"), "name"), S(a))
def ISOF(r): return ["isof", V("nx"), r]
def KIND(k): return EQ(ATTR(V("nx"), "kind"), S(k))


def lookahead(rnd, p, ts, counts=True):
    """a random statement about the states one step ahead"""
    names = [a["name"] for a in p["actions"]] + [a["name"] for r in p["roles"] for a in r["actions"] if a["name"] != "Init"]
    def cond():
        x = rnd.random()
        t = NXT(rnd.choice(ts))
        if x < .25 and names: return BY(rnd.choice(names))
        if x < .35: return KIND(rnd.choice(("action", "thread", "channel")))
        if x < .45 and p["roles"]: return OF(rnd.choice(p["roles"])["name"] + "#" + str(rnd.randrange(2)))
        if x < .75: return BIN(rnd.choice(("==", "!=", "<", ">")), t, I(rnd.randrange(3)))
        return BIN(rnd.choice(("==", "!=", ">")), t, term(rnd.choice(ts)))
    c = cond()
    if rnd.random() < .5: c = AND(c, cond())
    x = rnd.random()
    if x < .4: e = CAN(c)
    elif x < .6: e = NOT(CAN(c))
    elif counts: e = BIN(rnd.choice(("==", "!=", "<=")), HOWMANY(c), I(rnd.randrange(1, 4)))
    else: e = OR(NOT(CAN(c)), CAN(cond()))
    return e if rnd.random() < .4 else OR(atom(rnd, ts), e)


def decorate_next(rnd, p, counts=True, **opts):
    ts = terms(p)
    p = dict(p, opts=dict(p["opts"], **opts), invs=[])
    for i in range(rnd.choice((1, 1, 2))):
        p["invs"].append(INV("Inv%d" % i, rnd.choice(("always", "always", "exists")), lookahead(rnd, p, ts, counts), []))
    return p


# ------------------------------------------------------------------ hand-written programs
NODL = dict(deadlock_detection=False, crash_on_yield=False)
NODLC = dict(deadlock_detection=False, crash_on_yield=True)
BX, AX = ATTR(V("before"), "x"), ATTR(V("after"), "x")
x, y = V("x"), V("y")


def alw(*es): return [INV("Inv%d" % i, "always", e) for i, e in enumerate(es)]
def exi(*es): return [INV("Ex%d" % i, "exists", e) for i, e in enumerate(es)]
def tra(*es): return [INV("Tr%d" % i, "transition", e, ["before", "after"]) for i, e in enumerate(es)]
def xy(a=0, b=0): return [ASSIGN("x", I(a)), ASSIGN("y", I(b))]
def inc(v, m): return ASSIGN(v, MOD(ADD(V(v), I(1)), I(m)))


def fields(r): return ["fn", "all", [COMP(GE(ATTR(V("n"), "u"), I(0)), "n", r)]]


NODE = ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0)), ASSIGN(SELF("c"), I(0))),
                  ACTION("A", "atomic", ASSIGN(SELF("a"), I(1)))], [], durable=["c"])
NODE2 = ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("A", "serial", ASSIGN(SELF("a"), I(1)), ASSIGN(SELF("a"), I(2)))], [])


def c_always():
    P = []
    # broken inside an atomic action only: no violation
    P.append(PROG("mid_atomic", xy(), [ACTION("A", "atomic", ASSIGN("x", I(9)), ASSIGN("y", I(1)), ASSIGN("x", I(1)))], invs=alw(LT(x, I(5))), opts=NODL))
    P.append(PROG("mid_choice", xy(), [ACTION("A", "atomic", ASSIGN("x", I(9)), ANY("i", LIST(I(0), I(1)), ASSIGN("x", V("i"))))], invs=alw(LT(x, I(5))), opts=NODL))
    P.append(PROG("mid_oneof", xy(), [ACTION("A", "atomic", ASSIGN("x", I(9)), ONEOF(ASSIGN("x", I(1)), ASSIGN("x", I(2))))], invs=alw(LT(x, I(5))), opts=NODL))
    P.append(PROG("mid_require", xy(), [ACTION("A", "atomic", ASSIGN("x", I(9)), REQUIRE(EQ(y, I(1))))], invs=alw(LT(x, I(5))), opts=NODL))
    # broken between the statements of a serial action
    P.append(PROG("mid_serial", xy(), [ACTION("A", "serial", ASSIGN("x", I(9)), ASSIGN("x", I(1)))], invs=alw(LT(x, I(5))), opts=NODL))
    P.append(PROG("mid_parallel", xy(), [ACTION("A", "parallel", ASSIGN("x", I(1)), ASSIGN("y", I(1)))], invs=alw(EQ(x, y)), opts=NODL))
    P.append(PROG("mid_parallel2", xy(), [ACTION("A", "parallel", ASSIGN("x", I(1)), ASSIGN("y", I(1)))], invs=alw(GE(x, y)), opts=NODL))
    P.append(PROG("mid_parallel3", xy(), [ACTION("A", "parallel", inc("x", 9), inc("x", 9), ASSIGN("y", I(1)))], invs=alw(NE(x, I(3))), opts=dict(NODL, max_concurrent_actions=1)))
    # the initial state
    P.append(PROG("init_fails", xy(1), [ACTION("A", "atomic", ASSIGN("x", I(0)))], invs=alw(EQ(x, I(0))), opts=NODL))
    P.append(PROG("init_one_fails", [CHOOSE("x", LIST(I(0), I(1), I(2))), ASSIGN("y", I(0))], [ACTION("A", "atomic", ASSIGN("y", I(1)))], invs=alw(NE(x, I(2))), opts=NODL))
    # far away
    P.append(PROG("deep", xy(), [ACTION("A", "atomic", inc("x", 12)), ACTION("B", "atomic", REQUIRE(EQ(x, I(11))), ASSIGN("y", I(1)))], invs=alw(EQ(y, I(0))), opts=NODL))
    P.append(PROG("deep_ok", xy(), [ACTION("A", "atomic", inc("x", 12)), ACTION("B", "atomic", REQUIRE(EQ(x, I(12))), ASSIGN("y", I(1)))], invs=alw(EQ(y, I(0))), opts=NODL))
    # only a particular interleaving: lost update
    upd = ACTION("A", "serial", ASSIGN("l", x), ASSIGN("x", ADD(V("l"), I(1))), ASSIGN("y", ADD(y, I(1))))
    updn = ACTION("A", "serial", REQUIRE(LT(y, I(3))), ASSIGN("l", x), ASSIGN("x", MOD(ADD(V("l"), I(1)), I(5))), ASSIGN("y", MOD(ADD(y, I(1)), I(5))))
    P.append(PROG("lost_update", xy(), [updn], invs=alw(LE(y, ADD(x, I(1)))), opts=dict(NODL, max_concurrent_actions=2)))
    P.append(PROG("lost_update1", xy(), [updn], invs=alw(LE(y, ADD(x, I(1)))), opts=dict(NODL, max_concurrent_actions=1)))
    peter = [ACTION("P", "serial", REQUIRE(EQ(ATTR(V("s"), "a"), I(0))), ASSIGN("x", ADD(x, I(1))), ASSIGN("x", SUB(x, I(1))))]
    lock = [ACTION("P", "serial", REQUIRE(EQ(y, I(0))), ASSIGN("y", I(1)), ASSIGN("x", ADD(x, I(1))), ASSIGN("x", SUB(x, I(1))), ASSIGN("y", I(0)))]
    P.append(PROG("lock_broken", xy(), lock, invs=alw(LE(x, I(1))), opts=dict(NODL, max_concurrent_actions=2)))
    lock2 = [ACTION("P", "serial", ATOMIC(REQUIRE(EQ(y, I(0))), ASSIGN("y", I(1))), ASSIGN("x", ADD(x, I(1))), ASSIGN("x", SUB(x, I(1))), ASSIGN("y", I(0)))]
    P.append(PROG("lock_ok", xy(), lock2, invs=alw(LE(x, I(1))), opts=dict(NODL, max_concurrent_actions=3)))
    P.append(PROG("three", xy(), [ACTION("P", "serial", ASSIGN("x", ADD(x, I(1))), ASSIGN("x", SUB(x, I(1))))], invs=alw(LE(x, I(2))), opts=dict(NODL, max_concurrent_actions=3)))
    P.append(PROG("three_ok", xy(), [ACTION("P", "serial", ASSIGN("x", ADD(x, I(1))), ASSIGN("x", SUB(x, I(1))))], invs=alw(LE(x, I(2))), opts=dict(NODL, max_concurrent_actions=2)))
    # only after a crash
    P.append(PROG("crash_only", xy(), [ACTION("A", "serial", ASSIGN("x", I(1)), ASSIGN("x", I(0))), ACTION("B", "atomic", REQUIRE(EQ(x, I(1))), ASSIGN("y", I(1)))], invs=alw(EQ(y, I(0))), opts=dict(NODLC, max_concurrent_actions=1)))
    P.append(PROG("crash_none", xy(), [ACTION("A", "serial", ASSIGN("x", I(1)), ASSIGN("x", I(0))), ACTION("B", "atomic", REQUIRE(EQ(x, I(1))), ASSIGN("y", I(1)))], invs=alw(EQ(y, I(0))), opts=dict(NODL, max_concurrent_actions=1)))
    cr = ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0)), ASSIGN(SELF("c"), I(0))), ACTION("A", "atomic", ASSIGN(SELF("a"), I(1)), ASSIGN(SELF("c"), I(1)))], [], durable=["c"])
    P.append(PROG("crash_role", [ASSIGN("n", NEWROLE("N"))], [], roles=[cr], invs=alw(EQ(ATTR(V("n"), "a"), ATTR(V("n"), "c"))), opts=NODLC))
    P.append(PROG("crash_role_off", [ASSIGN("n", NEWROLE("N"))], [], roles=[cr], invs=alw(EQ(ATTR(V("n"), "a"), ATTR(V("n"), "c"))), opts=NODL))
    # only role fields change, with several actions in flight
    act = lambda d, *b: ROLE(d, [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0)), ASSIGN(SELF("c"), I(0))), ACTION("A", "serial", *b)], [])
    two = [ASSIGN("n", NEWROLE("N")), ASSIGN("q", NEWROLE("Q"))]
    fld = lambda r, f_: ATTR(V(r), f_)
    for nm, e in (("a", OR(NE(fld("n", "a"), I(1)), NE(fld("q", "a"), I(2)))), ("b", OR(NE(fld("n", "a"), I(2)), NE(fld("q", "a"), I(1)))), ("c", OR(LT(fld("n", "a"), I(2)), LT(fld("q", "a"), I(2)))),
                  ("d", OR(NE(fld("n", "a"), I(1)), NE(fld("q", "a"), I(1)))), ("e", LT(fld("n", "c"), I(3))), ("f", OR(EQ(fld("n", "c"), I(0)), EQ(fld("q", "a"), I(0))))):
        P.append(PROG("two_roles_" + nm, two, [], roles=[act("N", ASSIGN(SELF("a"), I(1)), ASSIGN(SELF("a"), I(2)), ASSIGN(SELF("c"), ATTR(V("q"), "a")), ATOMIC(ASSIGN(SELF("a"), I(0)), ASSIGN(SELF("c"), I(0)))),
            act("Q", ASSIGN(SELF("a"), I(1)), ASSIGN(SELF("a"), I(2)), ASSIGN(SELF("a"), I(0)))], invs=alw(e), opts=NODL))
    up3 = ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("A", "serial", ASSIGN("l", SELF("a")), ASSIGN(SELF("a"), MOD(ADD(V("l"), I(1)), I(4))), PASS())], [])
    for k in (1, 2, 3):
        P.append(PROG("same_heap_%d" % k, [ASSIGN("n", NEWROLE("N"))], [], roles=[up3], invs=alw(NE(ATTR(V("n"), "a"), I(k))), opts=dict(NODL, max_concurrent_actions=2)))
    P.append(PROG("same_heap_two", [ASSIGN("n", NEWROLE("N")), ASSIGN("q", NEWROLE("N"))], [], roles=[up3], invs=alw(OR(NE(fld("n", "a"), I(2)), NE(fld("q", "a"), I(3)))), opts=dict(NODL, max_concurrent_actions=2)))
    # several assertions, one of them false
    P.append(PROG("several", xy(), [ACTION("A", "atomic", inc("x", 3)), ACTION("B", "atomic", inc("y", 3))], invs=alw(LT(x, I(3)), OR(NE(x, I(2)), NE(y, I(1))), LT(y, I(3))), opts=NODL))
    P.append(PROG("several_ok", xy(), [ACTION("A", "atomic", inc("x", 3)), ACTION("B", "atomic", inc("y", 3))], invs=alw(LT(x, I(3)), OR(NE(x, I(2)), NE(y, I(3))), LT(y, I(3))), opts=NODL))
    # roles and collections
    P.append(PROG("all_nodes", [ASSIGN("ns", LIST()), MUT("ns", "append", NEWROLE("N")), MUT("ns", "append", NEWROLE("N"))], [], roles=[NODE2],
                  invs=alw(["fn", "all", [COMP(LT(ATTR(V("n"), "a"), I(2)), "n", V("ns"))]]), opts=NODL))
    P.append(PROG("sum_nodes", [ASSIGN("ns", LIST()), MUT("ns", "append", NEWROLE("N")), MUT("ns", "append", NEWROLE("N"))], [], roles=[NODE2],
                  invs=alw(["fn", "any", [COMP(LT(ATTR(V("n"), "a"), I(2)), "n", V("ns"))]]), opts=NODL))
    P.append(PROG("list_inv", [ASSIGN("q", LIST()), ASSIGN("x", I(0))], [ACTION("A", "atomic", REQUIRE(LT(CALL("len", V("q")), I(3))), MUT("q", "append", x), inc("x", 2)),
                  ACTION("R", "atomic", REQUIRE(GT(CALL("len", V("q")), I(0))), MUT("q", "pop", I(0)))],
                  invs=alw(["fn", "all", [COMP(NE(IDX(V("q"), V("i")), IDX(V("q"), SUB(V("i"), I(1)))), "i", CALL("range", I(1), CALL("len", V("q"))))]], LE(CALL("len", V("q")), I(2))), opts=NODL))
    return P


def c_trans():
    P = []
    one = lambda *b, **k: [ACTION("A", k.get("flow", "atomic"), *b)]
    P.append(PROG("t_mid", [ASSIGN("x", I(0))], one(ASSIGN("x", I(5)), ANY("i", LIST(I(0), I(1)), ASSIGN("x", V("i")))), invs=tra(LE(AX, I(3))), opts=NODL))
    P.append(PROG("t_miss", [ASSIGN("x", I(0))], one(REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ANY("i", LIST(I(0), I(1)), ASSIGN("x", ADD(x, V("i"))))), invs=tra(LE(SUB(AX, BX), I(1))), opts=NODL))
    P.append(PROG("t_miss2", [ASSIGN("x", I(0))], one(REQUIRE(EQ(x, I(0))), ANY("i", LIST(I(0), I(2)), ASSIGN("x", ADD(x, V("i"))))), invs=tra(LE(SUB(AX, BX), I(1))), opts=NODL))
    P.append(PROG("t_midreq", [ASSIGN("x", I(0))], one(ASSIGN("x", I(5)), ANY("i", LIST(I(0), I(1)), REQUIRE(EQ(V("i"), I(2))))), invs=tra(LE(AX, I(3))), opts=NODL))
    for nm, e in (("t_rolef", LE(ATTR(ATTR(V("after"), "n"), "a"), I(0))), ("t_rolef2", EQ(ATTR(ATTR(V("after"), "n"), "a"), ATTR(ATTR(V("before"), "n"), "a"))),
                  ("t_rolef3", LE(SUB(ATTR(ATTR(V("after"), "n"), "a"), ATTR(ATTR(V("before"), "n"), "a")), I(1))),
                  ("t_rolef4", OR(EQ(ATTR(ATTR(V("before"), "n"), "a"), I(0)), EQ(ATTR(ATTR(V("after"), "n"), "a"), I(2))))):
        P.append(PROG(nm, [ASSIGN("n", NEWROLE("N"))], [], roles=[NODE2], invs=tra(e), opts=NODL))
    P.append(PROG("t_rolecr", [ASSIGN("n", NEWROLE("N"))], [], roles=[NODE], invs=tra(GE(ATTR(ATTR(V("after"), "n"), "a"), ATTR(ATTR(V("before"), "n"), "a"))), opts=NODLC))
    P.append(PROG("t_rolecr_off", [ASSIGN("n", NEWROLE("N"))], [], roles=[NODE], invs=tra(GE(ATTR(ATTR(V("after"), "n"), "a"), ATTR(ATTR(V("before"), "n"), "a"))), opts=NODL))
    P.append(PROG("t_serial", [ASSIGN("x", I(0))], one(ASSIGN("x", I(1)), ASSIGN("x", I(3)), flow="serial"), invs=tra(LE(SUB(AX, BX), I(1))), opts=NODL))
    P.append(PROG("t_serial_ok", [ASSIGN("x", I(0))], one(ASSIGN("x", I(1)), ASSIGN("x", I(2)), ASSIGN("x", I(0)), flow="serial"), invs=tra(LE(SUB(AX, BX), I(1))), opts=dict(NODL, max_concurrent_actions=1)))
    P.append(PROG("t_serial_conc", [ASSIGN("x", I(0))], one(ASSIGN("x", I(1)), ASSIGN("x", I(2)), ASSIGN("x", I(0)), flow="serial"), invs=tra(LE(SUB(AX, BX), I(1))), opts=dict(NODL, max_concurrent_actions=2)))
    P.append(PROG("t_serial2", xy(), one(ASSIGN("x", I(1)), PARALLEL(ASSIGN("x", I(3)), ASSIGN("y", I(1))), flow="serial"), invs=tra(LE(SUB(AX, BX), I(1))), opts=NODL))
    for nm in ("yield", "init", "crash"):
        P.append(PROG("t_named_" + nm, [ASSIGN("x", I(0))], [ACTION(nm, "atomic", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ANY("i", LIST(I(1), I(2)), ASSIGN("x", ADD(x, V("i")))))], invs=tra(LE(SUB(AX, BX), I(2))), opts=NODL))
    P.append(PROG("t_initv", [ASSIGN("x", I(0))], [], invs=tra(B(False)), opts=NODL))
    P.append(PROG("t_stut", [ASSIGN("x", I(0))], one(ASSIGN("x", x)), invs=tra(B(False)), opts=NODL))
    # the violating transition leads back to a state that is already known
    P.append(PROG("t_back", [ASSIGN("x", I(0))], [ACTION("A", "atomic", inc("x", 4))], invs=tra(GE(AX, BX)), opts=NODL))
    P.append(PROG("t_back2", xy(), [ACTION("A", "atomic", inc("x", 3)), ACTION("B", "atomic", REQUIRE(EQ(x, I(2))), ASSIGN("y", SUB(I(1), y)), ASSIGN("x", I(0)))],
                  invs=tra(OR(GE(ATTR(V("after"), "y"), ATTR(V("before"), "y")), NE(AX, I(0)))), opts=NODL))
    P.append(PROG("t_two", xy(), [ACTION("A", "atomic", inc("x", 3)), ACTION("B", "atomic", inc("y", 3))], invs=tra(OR(EQ(BX, AX), EQ(ATTR(V("before"), "y"), ATTR(V("after"), "y")))), opts=NODL))
    P.append(PROG("t_two_bad", xy(), [ACTION("A", "atomic", inc("x", 3)), ACTION("B", "atomic", inc("y", 3)), ACTION("C", "atomic", REQUIRE(EQ(x, I(2))), REQUIRE(EQ(y, I(2))), inc("x", 3), inc("y", 3))],
                  invs=tra(OR(EQ(BX, AX), EQ(ATTR(V("before"), "y"), ATTR(V("after"), "y")))), opts=NODL))
    P.append(PROG("t_choice_last", xy(), [ACTION("A", "atomic", ANY("i", LIST(I(0), I(1), I(2)), ASSIGN("x", V("i")), ANY("j", LIST(I(0), I(1)), ASSIGN("y", V("j")))))], invs=tra(OR(NE(AX, I(2)), OR(NE(BX, I(1)), LE(ATTR(V("before"), "y"), ATTR(V("after"), "y"))))), opts=NODL))
    return P


def c_exists():
    P = []
    P.append(PROG("e_mid", xy(), [ACTION("A", "atomic", ASSIGN("x", I(9)), ASSIGN("x", I(1)))], invs=exi(EQ(x, I(9)), EQ(x, I(1))), opts=NODL))
    P.append(PROG("e_midch", xy(), [ACTION("A", "atomic", ASSIGN("x", I(9)), ANY("i", LIST(I(0), I(1)), ASSIGN("x", V("i"))))], invs=exi(EQ(x, I(9)), EQ(x, I(1))), opts=NODL))
    P.append(PROG("e_serial", xy(), [ACTION("A", "serial", ASSIGN("x", I(9)), ASSIGN("x", I(1)))], invs=exi(EQ(x, I(9)), EQ(x, I(1))), opts=NODL))
    P.append(PROG("e_init", xy(1), [ACTION("A", "atomic", ASSIGN("x", I(0)))], invs=exi(EQ(x, I(1)), EQ(x, I(0))), opts=NODL))
    P.append(PROG("e_deep", xy(), [ACTION("A", "atomic", inc("x", 11)), ACTION("B", "atomic", REQUIRE(EQ(x, I(10))), ASSIGN("y", I(1)))], invs=exi(EQ(y, I(1)), EQ(x, I(10)), EQ(x, I(11))), opts=NODL))
    P.append(PROG("e_none", xy(), [ACTION("A", "atomic", inc("x", 3))], invs=exi(EQ(y, I(1)), EQ(x, I(5))), opts=NODL))
    P.append(PROG("e_crash", [ASSIGN("n", NEWROLE("N"))], [], roles=[ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0)), ASSIGN(SELF("c"), I(0))), ACTION("A", "atomic", ASSIGN(SELF("a"), I(1)), ASSIGN(SELF("c"), I(1)))], [], durable=["c"])],
                  invs=exi(AND(EQ(ATTR(V("n"), "a"), I(0)), EQ(ATTR(V("n"), "c"), I(1)))), opts=NODLC))
    P.append(PROG("e_crash_off", P[-1]["init"], [], roles=P[-1]["roles"], invs=P[-1]["invs"], opts=NODL))
    P.append(PROG("e_conc", xy(), [ACTION("A", "serial", inc("x", 4), inc("y", 4))], invs=exi(EQ(x, ADD(y, I(2)))), opts=dict(NODL, max_concurrent_actions=2)))
    P.append(PROG("e_conc1", xy(), [ACTION("A", "serial", inc("x", 4), inc("y", 4))], invs=exi(EQ(x, ADD(y, I(2)))), opts=dict(NODL, max_concurrent_actions=1)))
    P.append(PROG("e_always", xy(), [ACTION("A", "atomic", inc("x", 3))], invs=exi(EQ(y, I(1))) + [INV("Al", "always", LT(x, I(2)))], opts=NODL))
    P.append(PROG("e_always_ok", xy(), [ACTION("A", "atomic", inc("x", 3))], invs=[INV("Al", "always", LT(x, I(3)))] + exi(EQ(x, I(2)), EQ(x, I(1))), opts=NODL))
    return P


DL = dict(crash_on_yield=False)


def c_dead():
    P = []
    no = REQUIRE(EQ(V("j"), I(7)))
    P.append(PROG("dl", xy(), [
        ACTION("A", "atomic", ASSIGN("y", I(0)), ASSIGN("x", I(0)), ANY("i", LIST(I(0), I(1)), ASSIGN("x", V("i")), ASSIGN("y", V("i")))),
        ACTION("B", "atomic", REQUIRE(EQ(x, I(1))), ASSIGN("x", I(5)), ANY("j", LIST(I(0), I(1)), no, ASSIGN("x", I(1))))], opts=DL))
    P.append(PROG("dl2", xy(), [ACTION("A", "atomic", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1))),
        ACTION("B", "atomic", REQUIRE(EQ(x, I(1))), ASSIGN("x", I(5)), ANY("j", LIST(I(0), I(1)), no, ASSIGN("x", I(1))))], opts=DL))
    P.append(PROG("dl3", xy(), [ACTION("A", "atomic", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ANY("k", LIST(I(0), I(1)), ASSIGN("y", V("k")))),
        ACTION("B", "atomic", REQUIRE(EQ(x, I(1))), ASSIGN("x", I(5)), ASSIGN("y", I(0)), ANY("j", LIST(I(0), I(1)), no, ASSIGN("x", I(1))))], opts=DL))
    # two locks in opposite order
    P.append(PROG("locks", [ASSIGN("a", I(0)), ASSIGN("b", I(0))], [
        ACTION("P", "serial", ATOMIC(REQUIRE(EQ(V("a"), I(0))), ASSIGN("a", I(1))), ATOMIC(REQUIRE(EQ(V("b"), I(0))), ASSIGN("b", I(1))), ASSIGN("a", I(0)), ASSIGN("b", I(0))),
        ACTION("Q", "serial", ATOMIC(REQUIRE(EQ(V("b"), I(0))), ASSIGN("b", I(2))), ATOMIC(REQUIRE(EQ(V("a"), I(0))), ASSIGN("a", I(2))), ASSIGN("a", I(0)), ASSIGN("b", I(0)))],
        opts=dict(DL, max_concurrent_actions=2)))
    P.append(PROG("locks_ok", [ASSIGN("a", I(0)), ASSIGN("b", I(0))], [
        ACTION("P", "serial", ATOMIC(REQUIRE(EQ(V("a"), I(0))), ASSIGN("a", I(1))), ATOMIC(REQUIRE(EQ(V("b"), I(0))), ASSIGN("b", I(1))), ASSIGN("a", I(0)), ASSIGN("b", I(0))),
        ACTION("Q", "serial", ATOMIC(REQUIRE(EQ(V("a"), I(0))), ASSIGN("a", I(2))), ATOMIC(REQUIRE(EQ(V("b"), I(0))), ASSIGN("b", I(2))), ASSIGN("b", I(0)), ASSIGN("a", I(0)))],
        opts=dict(DL, max_concurrent_actions=2)))
    P.append(PROG("once", xy(), [ACTION("A", "atomic", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)))], opts=DL))
    P.append(PROG("once_off", xy(), [ACTION("A", "atomic", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)))], opts=dict(DL, deadlock_detection=False)))
    # a step that changes nothing keeps the model alive
    P.append(PROG("stutter_live", xy(), [ACTION("A", "atomic", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1))), ACTION("S", "atomic", REQUIRE(EQ(x, I(1))), ASSIGN("x", I(1)))], opts=DL))
    # an action without enabling statement does not
    P.append(PROG("only_if", xy(), [ACTION("A", "atomic", IF((EQ(x, I(0)), [ASSIGN("x", I(1))])))], opts=DL))
    P.append(PROG("only_pass", xy(), [ACTION("A", "atomic", IF((EQ(x, I(0)), [ASSIGN("x", I(1))]), els=[PASS()]))], opts=DL))
    P.append(PROG("empty_any", xy(), [ACTION("A", "atomic", ANY("i", CALL("range", SUB(I(2), x)), ASSIGN("x", ADD(x, I(1)))))], opts=DL))
    P.append(PROG("empty_choice", xy(), [ACTION("A", "atomic", CHOOSE("y", CALL("range", SUB(I(2), x))), ASSIGN("x", ADD(x, I(1))))], opts=DL))
    # an in-flight action that waits at its next statement
    P.append(PROG("wait", xy(), [ACTION("A", "serial", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ATOMIC(REQUIRE(EQ(y, I(1))), ASSIGN("y", I(2))))], opts=DL))
    P.append(PROG("wait_served", xy(), [ACTION("A", "serial", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ATOMIC(REQUIRE(EQ(y, I(1))), ASSIGN("y", I(0)), ASSIGN("x", I(0)))),
                                        ACTION("B", "atomic", REQUIRE(EQ(x, I(1))), ASSIGN("y", I(1)))], opts=DL))
    P.append(PROG("wait_conc1", xy(), [ACTION("A", "serial", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ATOMIC(REQUIRE(EQ(y, I(1))), ASSIGN("y", I(0)), ASSIGN("x", I(0)))),
                                       ACTION("B", "atomic", REQUIRE(EQ(x, I(1))), ASSIGN("y", I(1)))], opts=dict(DL, max_concurrent_actions=1)))
    # a crash alone does not resolve a deadlock
    P.append(PROG("wait_crash", xy(), [ACTION("A", "serial", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ATOMIC(REQUIRE(EQ(y, I(1))), ASSIGN("y", I(2)))), ACTION("B", "atomic", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(0)))], opts=dict(crash_on_yield=True, max_concurrent_actions=1)))
    P.append(PROG("par_wait", xy(), [ACTION("A", "parallel", ATOMIC(REQUIRE(EQ(y, I(1))), ASSIGN("x", I(1))), ASSIGN("y", I(1)))], opts=dict(DL, max_concurrent_actions=1)))
    P.append(PROG("par_wait2", xy(), [ACTION("A", "serial", PARALLEL(ATOMIC(REQUIRE(EQ(y, I(1))), ASSIGN("x", I(1))), ATOMIC(REQUIRE(EQ(x, I(1))), ASSIGN("y", I(1)))))], opts=dict(DL, max_concurrent_actions=1)))
    # some choices lead into a deadlock
    P.append(PROG("choice_dead", xy(), [ACTION("A", "atomic", REQUIRE(LT(x, I(2))), ANY("i", LIST(I(0), I(1), I(2)), ASSIGN("x", V("i"))))], opts=DL))
    P.append(PROG("init_dead", xy(3), [ACTION("A", "atomic", REQUIRE(LT(x, I(2))), ASSIGN("x", I(1)))], opts=DL))
    P.append(PROG("dead_role", [ASSIGN("n", NEWROLE("N"))], [], roles=[ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("A", "atomic", REQUIRE(LT(SELF("a"), I(2))), ASSIGN(SELF("a"), ADD(SELF("a"), I(1))))], [])], opts=DL))
    # actions with the names of yield points
    for nm in ("crash", "yield", "init"):
        P.append(PROG("named_" + nm, xy(), [ACTION(nm, "atomic", ASSIGN("x", SUB(I(1), x)))], opts=DL))
        P.append(PROG("named_mid_" + nm, xy(), [ACTION(nm, "atomic", ANY("i", LIST(I(1), I(2)), ASSIGN("x", V("i")), ONEOF(REQUIRE(EQ(x, I(9))), REQUIRE(EQ(x, I(8)))))), ACTION("B", "atomic", inc("x", 3))], opts=DL))
        P.append(PROG("named_stop_" + nm, xy(), [ACTION(nm, "serial", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ASSIGN("y", I(1)))], opts=DL))
    # an always violation takes precedence over the deadlock behind it
    P.append(PROG("dead_inv", xy(), [ACTION("A", "atomic", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)))], invs=alw(EQ(x, I(0))), opts=DL))
    P.append(PROG("dead_ex", xy(), [ACTION("A", "atomic", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)))], invs=exi(EQ(x, I(5))), opts=DL))
    return P


def ae(*es): return [INV("Ae%d" % i, "always-eventually", e) for i, e in enumerate(es)]
def ea(*es): return [INV("Ea%d" % i, "eventually-always", e) for i, e in enumerate(es)]
def both(e): return ae(e), ea(e)
def act(n, f, *b): return ACTION(n, "atomic", *b, fair=f)
def old(invs): return [dict(v, form="expr") for v in invs]


def c_live():
    P = []
    one, two = dict(NODL, max_concurrent_actions=1), dict(NODL, max_concurrent_actions=2)
    def add(name, init, actions, invs, opts=one, **kw): P.append(PROG(name, init, actions, invs=invs, opts=opts, **kw))
    F = (None, "weak", "strong")
    tag = lambda f: f or "none"
    for f in F:
        # a clock; a step that is always enabled, next to one that is not fair
        add("clock_" + tag(f), xy(), [act("T", f, inc("x", 3))], ae(EQ(x, I(2))))
        add("clock_ea_" + tag(f), xy(), [act("T", f, inc("x", 3))], ea(LT(x, I(2))))
        add("once_" + tag(f), xy(), [act("A", f, REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)))], ea(EQ(x, I(1))))
        add("once_ae_" + tag(f), xy(), [act("A", f, REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)))], ae(EQ(x, I(1))))
        add("busy_" + tag(f), xy(), [act("A", f, REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1))), act("N", None, inc("y", 2))], ea(EQ(x, I(1))))
        # enabled now and then: only strong fairness helps
        for g in F:
            add("blink_%s_%s" % (tag(f), tag(g)), xy(), [act("A", f, REQUIRE(EQ(y, I(1))), ASSIGN("x", I(1))), act("N", g, inc("y", 2))], ae(EQ(x, I(1))))
            add("blink3_%s_%s" % (tag(f), tag(g)), xy(), [act("A", f, REQUIRE(NE(y, I(2))), ASSIGN("x", SUB(I(1), x))), act("N", g, inc("y", 3))], ae(EQ(x, I(1))))
            # two fair actions that compete
            add("compete_%s_%s" % (tag(f), tag(g)), xy(), [act("A", f, REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1))), act("B", g, REQUIRE(EQ(x, I(0))), ASSIGN("x", I(2))), act("R", "weak", REQUIRE(GT(x, I(0))), ASSIGN("x", I(0)))], ae(EQ(x, I(2))))
            add("window_%s_%s" % (tag(f), tag(g)), xy(), [act("A", f, REQUIRE(EQ(x, I(2))), ASSIGN("y", I(1))), act("S", g, REQUIRE(EQ(y, I(0))), inc("x", 4))], ea(EQ(y, I(1))))
        # a self-loop that is fair does not force progress
        add("selfloop_" + tag(f), xy(), [act("A", f, ASSIGN("x", x)), act("B", None, ASSIGN("x", I(1)))], ea(EQ(x, I(1))))
        # it has to hold for all instances of a role
        R = lambda f: ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("A", "atomic", ASSIGN(SELF("a"), SUB(I(1), SELF("a"))), fair=f)], [])
        tw = [ASSIGN("n", NEWROLE("N")), ASSIGN("q", NEWROLE("N"))]
        na, qa = ATTR(V("n"), "a"), ATTR(V("q"), "a")
        add("role_one_" + tag(f), tw, [], ae(EQ(qa, I(1))), roles=[R(f)])
        add("role_both_" + tag(f), tw, [], ae(AND(EQ(qa, I(1)), EQ(na, I(1)))), roles=[R(f)])
        R1 = ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("A", "atomic", REQUIRE(EQ(SELF("a"), I(0))), ASSIGN(SELF("a"), I(1)), fair=f)], [])
        R2 = ROLE("M", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("A", "atomic", REQUIRE(EQ(SELF("a"), I(0))), ASSIGN(SELF("a"), I(1)))], [])
        add("roles_two_" + tag(f), [ASSIGN("n", NEWROLE("N")), ASSIGN("q", NEWROLE("M"))], [act("X", None, SUBX)], ea(EQ(na, I(1))), roles=[R1, R2])
        add("roles_all_" + tag(f), tw, [act("X", None, SUBX)], ea(AND(EQ(na, I(1)), EQ(qa, I(1)))), roles=[R1])
        # serial actions: what has begun goes on, whether the action is fair or not
        add("serial_" + tag(f), xy(), [ACTION("A", "serial", ASSIGN("x", I(1)), ASSIGN("x", I(0)), ASSIGN("x", I(0)), fair=f)], ae(EQ(x, I(0))))
        add("serial_hold_" + tag(f), xy(), [ACTION("A", "serial", ASSIGN("x", I(1)), ASSIGN("y", I(1)), ASSIGN("x", I(0)), fair=f), act("N", None, inc("y", 3))], ae(EQ(x, I(0))), opts=two)
        add("serial_two_" + tag(f), xy(), [ACTION("A", "serial", ASSIGN("x", I(1)), ASSIGN("x", I(0)), fair=f), ACTION("B", "serial", ASSIGN("y", I(1)), ASSIGN("y", I(0)), fair=f)], ae(AND(EQ(x, I(0)), EQ(y, I(0)))), opts=two)
        add("serial_wait_" + tag(f), xy(), [ACTION("A", "serial", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ATOMIC(REQUIRE(EQ(y, I(1))), ASSIGN("x", I(0)))), act("N", f, inc("y", 2))], ae(EQ(x, I(0))), opts=two)
        add("serial_never_" + tag(f), xy(), [ACTION("A", "serial", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ATOMIC(REQUIRE(EQ(y, I(3))), ASSIGN("x", I(0)))), act("N", f, inc("y", 2))], ae(EQ(x, I(0))), opts=two)
        add("parallel_" + tag(f), xy(), [ACTION("A", "parallel", ASSIGN("x", SUB(I(1), x)), ASSIGN("y", SUB(I(1), y)), fair=f)], ae(EQ(x, y)))
        add("lock_" + tag(f), [ASSIGN("l", I(0)), ASSIGN("x", I(0)), ASSIGN("y", I(0))],
            [ACTION("A", "serial", ATOMIC(REQUIRE(EQ(V("l"), I(0))), ASSIGN("l", I(1))), ASSIGN("x", SUB(I(1), x)), ASSIGN("l", I(0)), fair=f),
             ACTION("B", "serial", ATOMIC(REQUIRE(EQ(V("l"), I(0))), ASSIGN("l", I(1))), ASSIGN("y", SUB(I(1), y)), ASSIGN("l", I(0)), fair="weak")], ae(EQ(x, I(1))), opts=two)
        # crashes happen finitely often
        add("crash_" + tag(f), xy(), [ACTION("A", "serial", ASSIGN("x", I(1)), ASSIGN("y", I(1)), ASSIGN("x", I(0)), fair=f)], ae(AND(EQ(x, I(0)), EQ(y, I(1)))), opts=dict(one, crash_on_yield=True))
        add("crash_role_" + tag(f), tw, [], ea(EQ(na, I(1))), roles=[R1], opts=dict(one, crash_on_yield=True))
        add("crash_reset_" + tag(f), [ASSIGN("n", NEWROLE("N"))], [], ae(EQ(na, I(1))), opts=dict(one, crash_on_yield=True),
            roles=[ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0)), ASSIGN(SELF("c"), I(0))), ACTION("A", "atomic", ASSIGN(SELF("a"), I(1)), fair=f)], [], durable=["c"])])
        add("crash_stop_" + tag(f), xy(), [ACTION("A", "serial", REQUIRE(EQ(y, I(0))), ASSIGN("x", I(1)), ATOMIC(ASSIGN("x", I(0)), ASSIGN("y", I(1))), fair=f)], ea(EQ(x, I(0))), opts=dict(one, crash_on_yield=True))
        add("crash_stop_ae_" + tag(f), xy(), [ACTION("A", "serial", REQUIRE(EQ(y, I(0))), ASSIGN("x", I(1)), ATOMIC(ASSIGN("x", I(0)), ASSIGN("y", I(1))), fair=f)], ae(EQ(x, I(0))), opts=dict(one, crash_on_yield=True))
        add("crash_then_" + tag(f), xy(), [ACTION("A", "serial", REQUIRE(EQ(y, I(0))), ASSIGN("x", I(1)), ATOMIC(ASSIGN("x", I(0)), ASSIGN("y", I(1))), fair=f), act("B", f, REQUIRE(EQ(x, I(1))), REQUIRE(EQ(y, I(0))), ASSIGN("y", I(2)))],
            ae(OR(EQ(x, I(0)), EQ(y, I(2)))), opts=dict(one, crash_on_yield=True))
        # choices
        for h in F:
            cf = lambda *b, **k: ANY("i", LIST(I(0), I(1), I(2)), *b, fair=h)
            add("choice_%s_%s" % (tag(f), tag(h)), xy(), [act("A", f, cf(ASSIGN("x", V("i"))))], ae(EQ(x, I(2))))
            add("choose_%s_%s" % (tag(f), tag(h)), xy(), [act("A", f, CHOOSE("i", LIST(I(0), I(1)), fair=h), ASSIGN("x", V("i")))], ae(EQ(x, I(1))))
            add("choose2_%s_%s" % (tag(f), tag(h)), xy(), [act("A", f, CHOOSE("i", LIST(I(0), I(1)), fair=h), CHOOSE("j", LIST(I(0), I(1)), fair=h), ASSIGN("x", ADD(V("i"), V("j"))))], ae(EQ(x, I(2))))
            # an alternative for each of two statements
            add("choose_sites_%s_%s" % (tag(f), tag(h)), xy(), [act("A", f, IF((EQ(x, I(0)), [CHOOSE("x", LIST(I(1), I(2)), fair=h)]), els=[ASSIGN("x", I(0))])),
                act("B", f, REQUIRE(EQ(x, I(0))), CHOOSE("x", LIST(I(1), I(2)), fair=h))], ae(EQ(x, I(2))))
            add("choose_mid_%s_%s" % (tag(f), tag(h)), xy(), [act("A", None, REQUIRE(EQ(y, I(0))), ASSIGN("x", I(2)), ANY("v", LIST(I(0), I(1)), ASSIGN("x", V("v")), fair=h)), act("Fix", f, REQUIRE(EQ(y, I(0))), ASSIGN("y", I(1)))], ae(EQ(y, I(1))))
            add("oneof_%s_%s" % (tag(f), tag(h)), xy(), [act("A", f, ONEOF(ASSIGN("x", I(1)), ASSIGN("x", I(2)), ASSIGN("x", I(0)))), act("B", h, ASSIGN("y", x))], ae(EQ(y, I(1))))
            add("role_choice_%s_%s" % (tag(f), tag(h)), tw, [], ae(EQ(qa, I(1))), roles=[ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("A", "atomic", CHOOSE("i", LIST(I(0), I(1)), fair=h), ASSIGN(SELF("a"), V("i")), fair=f)], [])])
    # the violation happens only in the states of a cycle, not on the way to it
    add("transient", xy(), [act("A", "weak", REQUIRE(LT(x, I(3))), inc("x", 9)), act("N", None, REQUIRE(EQ(x, I(3))), ASSIGN("y", SUB(I(1), y)))], ea(EQ(x, I(3))))
    add("transient_bad", xy(), [act("A", "weak", REQUIRE(LT(x, I(3))), inc("x", 9)), act("N", None, REQUIRE(EQ(x, I(3))), ASSIGN("y", SUB(I(1), y)))], ea(EQ(y, I(0))))
    # a branch into a bad end
    add("branch", xy(), [act("A", "weak", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1))), act("B", None, REQUIRE(EQ(x, I(0))), ASSIGN("x", I(2))), act("C", "strong", REQUIRE(EQ(x, I(1))), ASSIGN("y", I(1)))], ea(EQ(y, I(1))))
    add("branch_ok", xy(), [act("A", "weak", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1))), act("B", None, REQUIRE(EQ(x, I(0))), ASSIGN("x", I(2))), act("C", "strong", REQUIRE(GT(x, I(0))), ASSIGN("y", I(1)))], ea(EQ(y, I(1))))
    # only a long cycle through both bad choices is fair
    add("figure8", xy(), [act("L", "strong", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1))), act("M", None, REQUIRE(EQ(x, I(1))), ASSIGN("x", I(0))),
                          act("Q", "strong", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(2))), act("S", None, REQUIRE(EQ(x, I(2))), ASSIGN("x", I(0))), act("D", "strong", REQUIRE(EQ(x, I(5))), ASSIGN("y", I(1)))], ae(EQ(y, I(1))))
    add("figure8_out", xy(), [act("L", "strong", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1))), act("M", None, REQUIRE(EQ(x, I(1))), ASSIGN("x", I(0))),
                              act("Q", "strong", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(2))), act("S", None, REQUIRE(EQ(x, I(2))), ASSIGN("x", I(0))), act("D", "strong", REQUIRE(EQ(x, I(2))), ASSIGN("y", I(1)))], ae(EQ(y, I(1))))
    add("ring", xy(), [act("A%d" % i, "weak" if i % 2 else None, REQUIRE(EQ(x, I(i))), ASSIGN("x", I((i + 1) % 5))) for i in range(5)] + [act("D", "strong", REQUIRE(EQ(x, I(7))), ASSIGN("y", I(1)))], ae(EQ(y, I(1))))
    # several assertions; the first that fails is reported
    add("several", xy(), [act("A", "weak", inc("x", 3)), act("B", None, inc("y", 3))], ae(EQ(x, I(2)), EQ(y, I(2)), EQ(x, y)))
    add("several_ok", xy(), [act("A", "weak", inc("x", 3)), act("B", "weak", inc("y", 3))], ae(EQ(x, I(2)), EQ(y, I(2)), GT(ADD(x, y), I(0))) + exi(AND(EQ(x, I(2)), EQ(y, I(2)))) + alw(LT(x, I(3))))
    # other verdicts come first
    add("before_always", xy(), [act("A", None, inc("x", 3))], ae(EQ(x, I(2))) + alw(LT(x, I(2))))
    add("before_exists", xy(), [act("A", None, inc("x", 3))], ae(EQ(x, I(2))) + exi(EQ(x, I(5))))
    add("before_dead", xy(), [act("A", None, REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)))], ea(EQ(x, I(1))), opts=dict(DL, max_concurrent_actions=1))
    for v in ("strict", "enabled", "strict/bfs", "true"):
        add("opt_" + v.replace("/", "_"), xy(), [act("A", None, inc("x", 3))], ae(EQ(x, I(2))), opts=dict(one, liveness=v))
        add("opt_ok_" + v.replace("/", "_"), xy(), [act("A", "weak", inc("x", 3))], ae(EQ(x, I(2))), opts=dict(one, liveness=v))
    for v in ("false", "disabled"):
        add("opt_" + v, xy(), [act("A", None, inc("x", 3))], ae(EQ(x, I(2))), opts=dict(one, liveness=v))
    P += [dict(p, name="expr_" + p["name"], invs=old(p["invs"])) for p in P
          if p["name"] in ("transient", "transient_bad", "branch", "clock_none", "clock_weak", "once_none", "once_weak", "blink_weak_weak", "blink_strong_weak", "role_both_weak", "crash_weak")]
    return P


SUBX = ASSIGN("z", I(0))
def c_channels():
    """programs that send messages, with assertions"""
    P, A, F = [], ACTION, FUNC
    one = [ASSIGN("c", CHAN(0)), ASSIGN("n", NEWROLE("Node")), ASSIGN("s", STUB(V("c"), V("n"))), ASSIGN("k", I(0))]
    two = [ASSIGN("c", CHAN(0)), ASSIGN("n", NEWROLE("Node")), ASSIGN("n2", NEWROLE("Node")), ASSIGN("s", STUB(V("c"), V("n"))), ASSIGN("s2", STUB(V("c"), V("n2"))), ASSIGN("k", I(0))]
    v0 = A("Init", "atomic", ASSIGN(SELF("v"), I(0)))
    l0 = A("Init", "atomic", ASSIGN(SELF("v"), LIST()))
    recv = F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), V("x")))
    log = F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), ADD(SELF("v"), LIST(V("x")))))
    nv, n2v = ATTR(V("n"), "v"), ATTR(V("n2"), "v")
    def S1(*a): return FCALL("Recv", *a, recv="s")
    def S2(*a): return FCALL("Recv", *a, recv="s2")
    def send(*b, nm="Send", m=1): return A(nm, "atomic", REQUIRE(LT(V("k"), I(m))), ASSIGN("k", ADD(V("k"), I(1))), *b)
    three = send(S1(I(1)), S1(I(2)), S1(I(3)))
    logs = [ROLE("Node", [l0], [log])]
    ints = lambda *a: LIST(*map(I, a))
    # every order, nothing twice, nothing lost, nothing made up
    for i, e in enumerate((ints(1, 2, 3), ints(3, 1, 2), ints(3, 2, 1), ints(2, 1, 3))):
        P.append(PROG("cha_order%d" % i, one, [three], roles=logs, invs=alw(NE(nv, e)), opts=NODL))
        P.append(PROG("cha_some%d" % i, one, [three], roles=logs, invs=exi(EQ(nv, e)), opts=NODL))
    P.append(PROG("cha_once", one, [three], roles=logs, invs=alw(LE(CALL("len", nv), I(3)), AND(NE(nv, ints(1, 1)), NE(nv, ints(2, 2)))), opts=NODL))
    P.append(PROG("cha_twice", one, [three], roles=logs, invs=exi(EQ(CALL("len", nv), I(4)), EQ(nv, ints(1, 1)), EQ(nv, ints(3, 3, 3))), opts=NODL))
    P.append(PROG("cha_all", one, [send(S1(I(1)), S1(I(1)))], roles=logs, invs=exi(EQ(nv, ints(1, 1))), opts=NODL))
    # not before it is sent, not at the receiver of another
    P.append(PROG("cha_before", one, [three], roles=logs, invs=alw(OR(EQ(V("k"), I(1)), EQ(nv, LIST()))), opts=NODL))
    P.append(PROG("cha_wrong", two, [send(S1(I(1)), S2(I(2)))], roles=[ROLE("Node", [v0], [recv])], invs=alw(NE(nv, I(2)), NE(n2v, I(1))), opts=NODL))
    P.append(PROG("cha_later", one, [send(S1(I(1)))], roles=[ROLE("Node", [v0], [recv])], invs=alw(EQ(V("k"), nv)), opts=NODL))
    P.append(PROG("cha_none", one, [send(S1(I(1)))], roles=[ROLE("Node", [v0], [recv])], invs=exi(AND(EQ(V("k"), I(1)), EQ(nv, I(0))), AND(EQ(V("k"), I(0)), EQ(nv, I(1)))), opts=NODL))
    # a delivery is a transition
    P.append(PROG("cha_trans", one, [send(S1(I(2)))], roles=[ROLE("Node", [v0], [recv])], invs=tra(LE(SUB(ATTR(ATTR(V("after"), "n"), "v"), ATTR(ATTR(V("before"), "n"), "v")), I(1))), opts=NODL))
    P.append(PROG("cha_trans_ok", two, [send(S1(I(1)), S2(I(1)))], roles=[ROLE("Node", [v0], [recv])], invs=tra(LE(SUB(ADD(ATTR(ATTR(V("after"), "n"), "v"), ATTR(ATTR(V("after"), "n2"), "v")), ADD(ATTR(ATTR(V("before"), "n"), "v"), ATTR(ATTR(V("before"), "n2"), "v"))), I(1))), opts=NODL))
    # states where only a delivery is possible are no deadlocks
    DL = dict(deadlock_detection=True, crash_on_yield=False)
    again = F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), SUB(I(1), SELF("v"))), FCALL("Recv", SELF("v"), recv="s"))
    P.append(PROG("cha_forever", one, [send(S1(I(1)))], roles=[ROLE("Node", [v0], [again])], opts=DL))
    P.append(PROG("cha_forever_noop", one, [send(S1(I(1)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], IF((EQ(V("x"), I(0)), [ASSIGN(SELF("v"), V("x"))])))]), ROLE("Tick", [A("Init", "atomic", ASSIGN(SELF("t"), I(0))), A("T", "atomic", REQUIRE(EQ(V("k"), I(1))), ASSIGN(SELF("t"), SUB(I(1), SELF("t"))))])], opts=DL))
    P[-1]["init"].append(ASSIGN("tk", NEWROLE("Tick")))
    P.append(PROG("cha_done", one, [send(S1(I(1)))], roles=[ROLE("Node", [v0], [recv])], opts=DL))
    tick = A("T", "atomic", REQUIRE(EQ(nv, I(1))), ASSIGN("k", SUB(I(3), V("k"))))      # 1 -> 2 -> 1 -> ...
    P.append(PROG("cha_wake", one, [send(S1(I(1))), tick], roles=[ROLE("Node", [v0], [recv])], opts=DL))
    P.append(PROG("cha_wake_noop", one, [send(S1(I(0)), S1(I(1))), tick], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], IF((EQ(V("x"), I(1)), [ASSIGN(SELF("v"), I(1))])))])], opts=DL))
    P.append(PROG("cha_stuck", one, [send(S1(I(1)), S1(I(2))), tick], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], REQUIRE(LT(SELF("v"), V("x"))), ASSIGN(SELF("v"), V("x")))])], opts=DL))
    P.append(PROG("cha_refuse", one, [send(S1(I(2)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], REQUIRE(EQ(SELF("v"), V("x"))), ASSIGN(SELF("v"), I(0)))])], opts=DL))
    P.append(PROG("cha_serial", one, [send(S1(I(1)), S1(I(2)))], roles=[ROLE("Node", [v0], [F("Recv", "serial", ["x"], ASSIGN("t", SELF("v")), ASSIGN(SELF("v"), ADD(V("t"), V("x"))))])], invs=alw(NE(nv, I(2))), opts=NODL))
    P.append(PROG("cha_serial_all", P[-1]["init"], P[-1]["actions"], roles=P[-1]["roles"], invs=alw(LE(nv, I(3))) + exi(EQ(nv, I(3)), EQ(nv, I(1))), opts=NODL))
    # messages outlive a crash of their receiver
    cr = [ROLE("Node", [A("Init", "atomic", ASSIGN(SELF("v"), I(0)), ASSIGN(SELF("w"), I(0)))], [F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), V("x")), ASSIGN(SELF("w"), V("x")))], ephemeral=["v"])]
    P.append(PROG("cha_crash", one, [send(S1(I(1)))], roles=cr, invs=alw(EQ(nv, ATTR(V("n"), "w"))), opts=NODLC))
    P.append(PROG("cha_crash_ok", one, [send(S1(I(1)))], roles=cr, invs=alw(LE(nv, ATTR(V("n"), "w"))), opts=NODLC))
    return P


def c_next():
    P, A, F = [], ACTION, FUNC
    C = dict(NODL, max_concurrent_actions=1)
    CC = dict(NODLC, max_concurrent_actions=1)
    nx = lambda v: NXT(v)
    def add(name, e, *acts, init=None, k="always", roles=(), opts=NODL, **kw):
        es = e if isinstance(e, tuple) else (e,)
        P.append(PROG("nx_" + name, init or xy(), list(acts), roles=list(roles), invs=(alw if k == "always" else exi)(*es), opts=opts, **kw))
    up = A("Up", "atomic", REQUIRE(LT(x, I(3))), ASSIGN("x", ADD(x, I(1))))
    down = A("Down", "atomic", REQUIRE(GT(x, I(0))), ASSIGN("x", SUB(x, I(1))))
    # which actions are possible, and where they lead
    for i, e in enumerate((CAN(BY("Up")), CAN(BY("Down")), OR(EQ(x, I(3)), CAN(BY("Up"))), OR(EQ(x, I(0)), CAN(BY("Down"))), CAN(EQ(nx("x"), ADD(x, I(1)))), CAN(NE(nx("x"), x)), NOT(CAN(EQ(nx("x"), x))),
                           NOT(CAN(AND(BY("Up"), LT(nx("x"), x)))), NOT(CAN(AND(BY("Down"), LT(nx("x"), x)))), EQ(HOWMANY(["bool", True]), I(2)), LE(HOWMANY(["bool", True]), I(2)), GE(HOWMANY(["bool", True]), I(1)), NOT(CAN(GT(nx("x"), I(2)))))):
        add("updown%d" % i, e, up, down)
        add("updown_some%d" % i, e, up, down, k="exists")
    # disabled midway: by a require after an assignment, a condition, an empty loop, a choice of nothing
    for nm, b in (("late", [ASSIGN("x", I(9)), REQUIRE(EQ(y, I(1)))]), ("if", [IF((EQ(y, I(1)), [ASSIGN("x", I(1))]))]), ("for", [FOR("atomic", "i", LIST(), ASSIGN("x", I(1)))]),
                  ("any", [ANY("i", ["comp", V("j"), "j", LIST(I(0), I(1)), EQ(y, I(1))], ASSIGN("x", V("i")))]), ("while", [WHILE("atomic", LT(x, y), ASSIGN("x", ADD(x, I(1))))])):
        t = A("T", "atomic", ASSIGN("y", SUB(I(1), y)))
        add("dis_%s" % nm, NOT(CAN(BY("M"))), A("M", "atomic", *b), t)
        add("dis_%s_on" % nm, OR(EQ(y, I(0)), CAN(BY("M"))), A("M", "atomic", *b), t)
        add("dis_%s_off" % nm, OR(EQ(y, I(1)), NOT(CAN(BY("M")))), A("M", "atomic", *b), t)
    # all the alternatives of a choice
    pick = A("P", "atomic", ANY("i", LIST(I(0), I(1), I(2)), ASSIGN("x", V("i"))))
    one = A("P", "atomic", ONEOF(ASSIGN("x", I(1)), ASSIGN("x", I(2)), ASSIGN("y", I(1))))
    par = A("P", "atomic", ASSIGN("y", SUB(I(1), y)), ONEOF(ASSIGN("x", I(1)), ASSIGN("x", I(2))))
    two = A("P", "atomic", ANY("i", LIST(I(0), I(1)), ANY("j", LIST(I(0), I(1)), IF((EQ(V("i"), V("j")), [ASSIGN("x", V("i"))])))))
    opti = A("P", "atomic", ASSIGN("y", I(1)), ONEOF(ASSIGN("x", I(1)), IF((EQ(x, I(7)), [ASSIGN("x", I(0))]))))
    for nm, a in (("pick", pick), ("one", one), ("par", par), ("two", two), ("opt", opti)):
        for v in (0, 1, 2): add("ch_%s%d" % (nm, v), CAN(EQ(nx("x"), I(v))), a)
        for v in (1, 2, 3): add("ch_%s_n%d" % (nm, v), EQ(HOWMANY(["bool", True]), I(v)), a)
        add("ch_%s_k" % nm, CAN(AND(EQ(nx("x"), x), NE(nx("y"), y))), a)
    # the same state by several actions: one entry for each
    add("names", EQ(HOWMANY(["bool", True]), I(2)), A("A0", "atomic", ASSIGN("x", I(1))), A("B0", "atomic", ASSIGN("x", I(1))))
    add("names_a", AND(CAN(BY("A0")), CAN(BY("B0"))), A("A0", "atomic", ASSIGN("x", I(1))), A("B0", "atomic", ASSIGN("x", I(1))))
    # up to the first yield only; what is in flight; nothing of it is limited by the number of concurrent actions
    ser = A("S", "serial", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ASSIGN("x", I(2)), ASSIGN("x", I(0)))
    tick = A("T", "atomic", ASSIGN("y", SUB(I(1), y)))
    for nm, o in (("", C), ("2", NODL), ("c", CC)):
        for i, e in enumerate((OR(NE(x, I(0)), NOT(CAN(EQ(nx("x"), I(2))))), CAN(BY("T")), OR(EQ(x, I(0)), CAN(KIND("thread"))), NOT(CAN(AND(KIND("thread"), NE(nx("y"), y)))),
                               OR(NE(x, I(1)), CAN(AND(KIND("thread"), EQ(nx("x"), I(2))))), OR(EQ(x, I(0)), NOT(CAN(BY("S")))), CAN(BY("S")), NOT(CAN(KIND("channel"))), OR(NE(x, I(2)), CAN(EQ(nx("x"), I(0)))),
                               NOT(CAN(AND(KIND("thread"), EQ(ATTR(V("nx"), "action_name"), S("S"))))))):
            add("ser%s%d" % (nm, i), e, ser, tick, opts=o)
    # nothing is possible any more after the crash of the action
    res = A("S", "serial", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(1)), ASSIGN("y", I(1)))
    for nm, o in (("", NODLC), ("_off", NODL)):
        add("stuck%s" % nm, OR(NE(x, I(1)), OR(EQ(y, I(1)), CAN(["bool", True]))), res, opts=o)
        add("stuck_ex%s" % nm, AND(EQ(y, I(0)), NOT(CAN(["bool", True]))), res, k="exists", opts=o)
        add("stuck_thr%s" % nm, OR(NE(x, I(1)), OR(EQ(y, I(1)), CAN(KIND("thread")))), res, opts=o)
    # nor by the number of actions, of all or of one
    cnt = A("Up", "atomic", REQUIRE(LT(x, I(5))), ASSIGN("x", ADD(x, I(1))))
    for n in (1, 2, 3):
        add("max%d" % n, CAN(BY("Up")), cnt, opts=dict(NODL, max_actions=n), extra={"track": True})
        add("max_no%d" % n, LT(x, I(n)), cnt, opts=dict(NODL, max_actions=n), extra={"track": True})
        add("max_x%d" % n, NOT(CAN(EQ(nx("x"), I(n + 1)))), cnt, opts=dict(NODL, max_actions=n), extra={"track": True})
    for n in (1, 2):
        add("per%d" % n, CAN(BY("Up")), cnt, tick, opts=dict(NODL, max_actions=4), aopts={"Up": {"max_actions": n}}, extra={"track": True})
        add("per_no%d" % n, OR(LT(x, I(n)), NOT(CAN(BY("Up")))), cnt, tick, opts=dict(NODL, max_actions=4), aopts={"Up": {"max_actions": n}}, extra={"track": True})
    lim = A("S", "serial", ASSIGN("x", ADD(x, I(1))), ASSIGN("x", SUB(x, I(1))))
    for i, e in enumerate((CAN(BY("S")), NOT(CAN(GT(nx("x"), I(1)))), NOT(CAN(GT(nx("x"), I(2)))))):
        add("perc%d" % i, e, lim, tick, opts=NODL, aopts={"S": {"max_concurrent_actions": 1}})
    # roles
    N = ROLE("N", [A("Init", "atomic", ASSIGN(SELF("a"), I(0))), A("Go", "atomic", REQUIRE(EQ(SELF("a"), I(0))), ASSIGN(SELF("a"), I(1))), A("Bk", "serial", REQUIRE(EQ(SELF("a"), I(1))), ASSIGN(SELF("a"), I(2)), ASSIGN(SELF("a"), I(0)))], [])
    nq = [ASSIGN("n", NEWROLE("N")), ASSIGN("q", NEWROLE("N"))]
    na, qa = ATTR(V("n"), "a"), ATTR(V("q"), "a")
    nna, nqa = ATTR(nx("n"), "a"), ATTR(nx("q"), "a")
    for i, e in enumerate((OR(NE(na, I(0)), CAN(AND(OF("N#0"), BY("Go")))), OR(NE(na, I(0)), CAN(AND(OF("N#1"), BY("Go")))), OR(NE(qa, I(1)), CAN(AND(OF("N#1"), EQ(nqa, I(2))))), NOT(CAN(AND(OF("N#0"), NE(nqa, qa)))), NOT(CAN(AND(OF("N#1"), NE(nqa, qa)))),
                           NOT(CAN(AND(KIND("thread"), AND(EQ(nna, na), EQ(nqa, qa))))), CAN(BY("Go")), OR(NE(na, I(2)), CAN(EQ(nna, I(0)))), LE(HOWMANY(KIND("action")), I(2)), CAN(OF("N#1")), NOT(CAN(OF("N#2"))), EQ(HOWMANY(BY("Go")), I(2)))):
        add("role%d" % i, e, init=nq, roles=[N], opts=C)
        add("role_c%d" % i, e, init=nq, roles=[N], opts=NODLC)
    # the name of the transition and the identifier of its instance
    for i, e in enumerate((OR(NE(na, I(0)), CAN(NAMED("N#0.Go"))), OR(NE(qa, I(0)), CAN(AND(ISOF(V("q")), BY("Go")))), NOT(CAN(AND(ISOF(V("n")), NE(nqa, qa)))), NOT(CAN(AND(NAMED("N#1.Go"), ISOF(V("n"))))), EQ(HOWMANY(NAMED("N#0.Go")), HOWMANY(AND(ISOF(V("n")), BY("Go")))),
                           OR(EQ(na, I(0)), CAN(AND(ISOF(V("n")), NAMED("N#0.Bk")))), NOT(CAN(NAMED("Go"))), NOT(CAN(AND(ISOF(V("q")), NAMED("N#1.Bk")))))):
        add("who%d" % i, e, init=nq, roles=[N], opts=C)
    # new instances in the successors leave the numbers of later ones alone
    mk = A("Mk", "atomic", REQUIRE(LT(x, I(2))), ASSIGN("x", ADD(x, I(1))), ASSIGN("l", NEWROLE("N")), ASSIGN("q", ADD(V("q"), LIST(V("l")))))
    N0 = ROLE("N", [A("Init", "atomic", ASSIGN(SELF("a"), I(0))), A("Go", "atomic", REQUIRE(EQ(SELF("a"), I(0))), ASSIGN(SELF("a"), I(1)))], [])
    idle = lambda l: ["fn", "len", [COMP(V("r"), "r", l, EQ(ATTR(V("r"), "a"), I(0)))]]
    for i, e in enumerate((LE(HOWMANY(["bool", True]), I(3)), OR(EQ(x, I(2)), CAN(BY("Mk"))), EQ(HOWMANY(BY("Go")), idle(V("q"))), LE(HOWMANY(BY("Go")), I(2)), NOT(CAN(EQ(CALL("len", nx("q")), I(3)))), OR(LT(x, I(2)), CAN(BY("Go"))), EQ(HOWMANY(OF("N#0")), I(1)), LE(HOWMANY(OF("N#1")), I(0)))):
        add("mk%d" % i, e, mk, init=[ASSIGN("x", I(0)), ASSIGN("q", LIST()), ASSIGN("l", NEWROLE("N")), ASSIGN("q", ADD(V("q"), LIST(V("l"))))], roles=[N0])
    # messages
    ch = [ASSIGN("c", CHAN(0)), ASSIGN("n", NEWROLE("Node")), ASSIGN("s", STUB(V("c"), V("n"))), ASSIGN("k", I(0))]
    rc = ROLE("Node", [A("Init", "atomic", ASSIGN(SELF("v"), I(0)))], [F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), V("x")))])
    send = A("Send", "atomic", REQUIRE(LT(V("k"), I(1))), ASSIGN("k", ADD(V("k"), I(1))), FCALL("Recv", I(1), recv="s"), FCALL("Recv", I(2), recv="s"))
    nv, nnv = ATTR(V("n"), "v"), ATTR(nx("n"), "v")
    for i, e in enumerate((NOT(CAN(KIND("channel"))), NOT(CAN(AND(KIND("channel"), EQ(nnv, I(2))))), OR(EQ(V("k"), I(0)), CAN(EQ(nnv, I(1)))), LE(HOWMANY(KIND("channel")), I(2)), OR(EQ(V("k"), I(0)), EQ(HOWMANY(KIND("channel")), I(2))), OR(EQ(V("k"), I(0)), OR(NE(nv, I(0)), EQ(HOWMANY(KIND("channel")), I(2)))),
                           NOT(CAN(AND(BY("Send"), NE(nnv, nv)))), OR(EQ(V("k"), I(0)), CAN(["bool", True])))):
        add("msg%d" % i, e, send, init=ch, roles=[rc])
        add("msg_c%d" % i, e, send, init=ch, roles=[rc], opts=CC)
    return P


CORPUS = {"next": c_next, "channels": c_channels, "live": c_live, "always": c_always, "transition": c_trans, "exists": c_exists, "deadlock": c_dead}


def fair(rnd, p):
    """p with random fairness of its actions"""
    w = rnd.choice(((6, 2, 1), (1, 2, 1), (0, 1, 1), (0, 1, 0)))
    f = lambda a: dict(a, fair=rnd.choices((None, "weak", "strong"), w)[0]) if a["name"] != "Init" else a
    return dict(p, actions=[f(a) for a in p["actions"]], roles=[dict(r, actions=[f(a) for a in r["actions"]]) for r in p["roles"]])


def fair_choices(rnd, ss, q):
    """the statements, some of their choices fair"""
    out = []
    for s in ss:
        s = dict(s)
        if s["k"] == "any" and rnd.random() < q: s["fair"] = rnd.choice(("weak", "strong"))
        if isinstance(s.get("b"), list): s["b"] = fair_choices(rnd, s["b"], q)
        if s.get("brs"): s["brs"] = [dict(b, b=fair_choices(rnd, b["b"], q)) for b in s["brs"]]
        out.append(s)
    return out


def live(rnd, p, **opts):
    """p with random fairness and one liveness assertion"""
    p = fair(rnd, dict(p, opts=dict(p["opts"], **opts)))
    q = rnd.choice((0, 0, 0.6))
    f = lambda a: dict(a, b=fair_choices(rnd, a["b"], q))
    p = dict(p, actions=[f(a) for a in p["actions"]], roles=[dict(r, actions=[f(a) for a in r["actions"]]) for r in p["roles"]])
    ts = terms(p)
    e = rnd.choice((atom, always, exists))(rnd, ts)
    return dict(p, invs=[INV("Live", rnd.choice(("always-eventually", "eventually-always")), e)])
