"""Hand-written programs, by topic.  Every one has a finite state space and no assertions (deadlock
detection off), so that its complete transition graph can be compared."""
from .fz import *

OPT = dict(deadlock_detection=False, crash_on_yield=False)
CRASH = dict(deadlock_detection=False, crash_on_yield=True)


def inc(v, k=1, m=3): return ASSIGN(v, MOD(ADD(V(v) if isinstance(v, str) else v, I(k)), I(m)))
def xy(a=0, b=0): return [ASSIGN("x", I(a)), ASSIGN("y", I(b))]
def opt(base=OPT, **kw): return dict(base, **kw)
def any_(v, it, *b, fl="atomic", **kw): return ANY(v, it, *b, flow=fl, bflow=fl, **kw)
def ints(*n): return LIST(*[I(i) for i in n])


def atomic():
    P = []
    # require after updates: nothing of the action remains
    P.append(PROG("req_last", xy(), [ACTION("A", "atomic", inc("x"), inc("y", 2), REQUIRE(NE(V("x"), V("y")))),
                                     ACTION("Bb", "atomic", inc("y"))], opts=OPT))
    P.append(PROG("req_mid", xy(), [ACTION("A", "atomic", REQUIRE(LT(V("x"), I(2))), inc("x"), REQUIRE(EQ(V("y"), I(0))), ASSIGN("y", V("x"))),
                                    ACTION("R", "atomic", REQUIRE(EQ(V("x"), I(2))), ASSIGN("x", I(0)), ASSIGN("y", I(0)))], opts=OPT))
    # require in nested blocks, branches, loops, functions
    P.append(PROG("req_nested", xy(), [ACTION("A", "atomic", inc("x"), ATOMIC(inc("y"), IF((EQ(V("x"), I(1)), [REQUIRE(EQ(V("y"), I(1)))]), els=[ASSIGN("y", I(2)), REQUIRE(NE(V("x"), I(0)))])))], opts=OPT))
    P.append(PROG("req_func", xy(), [ACTION("A", "atomic", inc("x"), FCALL("g", V("x"), var="y")), ACTION("Bb", "atomic", ASSIGN("y", I(2)))],
                  funcs=[FUNC("g", "atomic", ["z"], ASSIGN("y", I(1)), REQUIRE(NE(V("z"), I(2))), RETURN(V("z")))], opts=OPT))
    P.append(PROG("req_loop", xy(), [ACTION("A", "atomic", FOR("atomic", "i", ints(0, 1, 2), ASSIGN("y", V("i")), REQUIRE(LE(V("i"), V("x")))), inc("x")),
                                     ACTION("Bb", "atomic", inc("x"))], opts=OPT))
    P.append(PROG("req_any", xy(), [ACTION("A", "atomic", any_("i", ints(0, 1, 2), ASSIGN("y", V("i")), REQUIRE(NE(V("i"), V("x"))), ASSIGN("x", V("i"))))], opts=OPT))
    P.append(PROG("req_oneof", xy(), [ACTION("A", "atomic", inc("x"), ONEOF(ATOMIC(ASSIGN("y", I(1)), REQUIRE(EQ(V("x"), I(1)))), ATOMIC(ASSIGN("y", I(2)), REQUIRE(EQ(V("x"), I(2)))), ASSIGN("y", I(0))))], opts=OPT))
    # no other action sees intermediate values: atomic block inside serial
    P.append(PROG("atomic_in_serial", xy(), [ACTION("A", "serial", inc("x"), ATOMIC(ASSIGN("y", I(1)), ASSIGN("y", I(0))), ASSIGN("y", V("x"))),
                                             ACTION("Bb", "atomic", REQUIRE(EQ(V("y"), I(1))), ASSIGN("x", I(0)))], opts=OPT))
    # an action without effect is not a transition; pass is
    P.append(PROG("noop", xy(), [ACTION("A", "atomic", IF((EQ(V("x"), I(1)), [ASSIGN("y", I(1))]))), ACTION("Bb", "atomic", inc("x", 1, 2)), ACTION("Cc", "atomic", REQUIRE(EQ(V("y"), I(1))), PASS())], opts=OPT))
    P.append(PROG("locals", xy(), [ACTION("A", "atomic", ASSIGN("t", V("x")), ASSIGN("x", V("y")), ASSIGN("y", ADD(V("t"), I(1))), REQUIRE(LT(V("y"), I(3)))), ACTION("Bb", "atomic", ASSIGN("t", I(2)), ASSIGN("x", I(0)))], opts=OPT))
    P.append(PROG("swap", [ASSIGN("x", I(0)), ASSIGN("y", I(1))], [ACTION("A", "atomic", ASSIGN("t", V("x")), ASSIGN("x", V("y")), ASSIGN("y", V("t")))], opts=OPT))
    P.append(PROG("init_atomic_block", xy() + [ATOMIC(ASSIGN("x", I(1)), ASSIGN("y", V("x")))], [ACTION("A", "atomic", inc("x"))], opts=OPT))
    P.append(PROG("consts", [ASSIGN("x", V("K"))], [ACTION("A", "atomic", ASSIGN("x", MOD(ADD(V("x"), V("K")), I(7))))], consts=[("K", I(3))], opts=OPT))
    P.append(PROG("ret_values", xy(), [ACTION("A", "atomic", inc("x", 1, 2), RETURN(V("x"))), ACTION("Bb", "atomic", RETURN(S("ok"))), ACTION("Cc", "atomic", inc("y", 1, 2), RETURN())], opts=OPT))
    P.append(PROG("dict_update", [ASSIGN("d", DICT((S("a"), I(0)), (S("b"), I(0))))], [ACTION("A", "atomic", any_("k", LIST(S("a"), S("b")), REQUIRE(LT(IDX(V("d"), V("k")), I(2))), ASSIGN(IDX(V("d"), V("k")), ADD(IDX(V("d"), V("k")), I(1)))))], opts=OPT))
    return P


def serial():
    P = []
    P.append(PROG("lost_update", [ASSIGN("x", I(0))], [ACTION("A", "serial", ASSIGN("t", V("x")), ASSIGN("x", MOD(ADD(V("t"), I(1)), I(4))))], opts=OPT))
    P.append(PROG("lost_update3", [ASSIGN("x", I(0))], [ACTION("A", "serial", REQUIRE(LT(V("x"), I(3))), ASSIGN("t", V("x")), ASSIGN("x", ADD(V("t"), I(1))))], opts=opt(max_concurrent_actions=3)))
    P.append(PROG("two_serial", xy(), [ACTION("A", "serial", inc("x"), inc("x")), ACTION("Bb", "serial", inc("y"), ASSIGN("y", V("x")))], opts=OPT))
    P.append(PROG("conc1", xy(), [ACTION("A", "serial", inc("x"), inc("y")), ACTION("Bb", "serial", inc("y"), inc("x"))], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("three_kinds", xy(), [ACTION("A", "serial", ASSIGN("x", I(1)), ATOMIC(ASSIGN("x", I(2)), ASSIGN("y", I(1))), ASSIGN("x", I(0))), ACTION("Bb", "atomic", REQUIRE(EQ(V("x"), I(2))), ASSIGN("y", I(2))), ACTION("Cc", "serial", REQUIRE(EQ(V("y"), I(2))), ASSIGN("y", I(0)))], opts=OPT))
    P.append(PROG("lock", [ASSIGN("l", I(0)), ASSIGN("c", I(0))], [ACTION("Acq", "serial", ATOMIC(REQUIRE(EQ(V("l"), I(0))), ASSIGN("l", I(1))), ASSIGN("c", ADD(V("c"), I(1))), ASSIGN("c", SUB(V("c"), I(1))), ASSIGN("l", I(0)))], opts=opt(max_concurrent_actions=3)))
    P.append(PROG("wait_mid", xy(), [ACTION("A", "serial", ASSIGN("x", I(1)), REQUIRE(EQ(V("y"), I(1))), ASSIGN("x", I(2))), ACTION("Bb", "serial", ASSIGN("y", I(1)), REQUIRE(EQ(V("x"), I(2))), ASSIGN("y", I(0)), ASSIGN("x", I(0)))], opts=OPT))
    P.append(PROG("serial_nested", xy(), [ACTION("A", "serial", SERIAL(inc("x"), SERIAL(inc("y"), inc("x"))), ASSIGN("y", I(0)))], opts=OPT))
    P.append(PROG("serial_branch", xy(), [ACTION("A", "serial", IF((EQ(V("x"), I(0)), [ASSIGN("x", I(1)), ASSIGN("y", I(1))]), els=[ASSIGN("x", I(0)), ASSIGN("y", I(2))]), inc("y"))], opts=OPT))
    P.append(PROG("serial_localmerge", xy(), [ACTION("A", "serial", ASSIGN("t", MOD(V("x"), I(2))), ASSIGN("x", I(0)), ASSIGN("y", V("t"))), ACTION("Bb", "atomic", inc("x", 1, 4))], opts=OPT))
    P.append(PROG("serial_return", xy(), [ACTION("A", "serial", inc("x"), IF((EQ(V("x"), I(1)), [RETURN(I(5))])), inc("y"))], opts=OPT))
    P.append(PROG("limit_per_action", xy(), [ACTION("A", "serial", inc("x"), inc("x")), ACTION("Bb", "serial", inc("y"), inc("y"))], opts=opt(max_concurrent_actions=3), aopts={"A": {"max_concurrent_actions": 1}}))
    P.append(PROG("four", [ASSIGN("x", I(0))], [ACTION("A", "serial", ASSIGN("x", I(1)), ASSIGN("x", I(0)))], opts=opt(max_concurrent_actions=4)))
    # limits of one action: per role, per instance kind, per instance, also while the action executes elsewhere
    lim = lambda ao, mc, fn="serial": PROG("limit_%s_%d" % ("_".join(ao).replace("#", "n").replace(".", ""), mc),
        [ASSIGN("s", NEWROLE("Srv")), ASSIGN("c", NEWROLE("Cli")), ASSIGN("d", NEWROLE("Cli"))], [], roles=[
        ROLE("Srv", [ACTION("Init", "atomic", ASSIGN(SELF("n"), I(0)), ASSIGN(SELF("k"), I(0)))], [FUNC("w", fn, [], ASSIGN(SELF("n"), I(1)), ASSIGN(SELF("n"), I(0)))]),
        ROLE("Cli", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("Go", "serial", ASSIGN(SELF("a"), I(1)), FCALL("w", recv="s"), ASSIGN(SELF("a"), I(0)))], [])],
        opts=opt(max_concurrent_actions=mc), aopts={a: {"max_concurrent_actions": n} for a, n in ao.items()})
    P += [lim({"Cli.Go": 1}, 2), lim({"Cli#.Go": 1}, 2), lim({"Cli#0.Go": 1}, 2), lim({"Cli#1.Go": 1, "Cli.Go": 2}, 3)]
    three = [ACTION("A", "serial", inc("x", 1, 2), PASS(), PASS()), ACTION("Bb", "serial", inc("y", 1, 2), PASS())]
    P += [PROG("limit2_%d" % i, xy(), three, opts=opt(max_concurrent_actions=3), aopts=ao) for i, ao in enumerate((
        {"A": {"max_concurrent_actions": 2}}, {"A": {"max_concurrent_actions": 2}, "Bb": {"max_concurrent_actions": 1}}))]
    return P


def choice():
    P = []
    P.append(PROG("any_all", xy(), [ACTION("A", "atomic", any_("i", ints(0, 1, 2), any_("j", ints(0, 1), ASSIGN("x", V("i")), ASSIGN("y", V("j")))))], opts=OPT))
    P.append(PROG("any_cond", xy(), [ACTION("A", "atomic", any_("i", ints(0, 1, 2, 3), ASSIGN("x", V("i")), cond=EQ(MOD(ADD(V("i"), V("x")), I(2)), I(1))))], opts=OPT))
    P.append(PROG("any_none", xy(), [ACTION("A", "atomic", inc("y"), any_("i", ints(), ASSIGN("x", V("i"))), inc("x")), ACTION("Bb", "atomic", CHOOSE("x", ints()))], opts=OPT))
    P.append(PROG("choose_in_if", xy(5), [ACTION("A", "atomic", CHOOSE("x", ints(0, 1)), IF((EQ(V("x"), I(1)), [CHOOSE("y", ints(1, 2))]), els=[ASSIGN("y", I(0))]))], opts=OPT))
    P.append(PROG("choose_cond", xy(), [ACTION("A", "atomic", CHOOSE("x", ints(0, 1, 2, 3), cond=GT(V("x"), I(1))), ASSIGN("y", V("x"))), ACTION("R", "atomic", ASSIGN("x", I(0)))], opts=OPT))
    P.append(PROG("isolation", [ASSIGN("l", LIST()), ASSIGN("d", DICT())], [ACTION("A", "atomic", REQUIRE(LT(CALL("len", V("l")), I(2))), MUT("l", "append", I(9)), any_("i", ints(0, 1), MUT("l", "append", V("i")), ASSIGN(IDX(V("d"), V("i")), CALL("len", V("l"))))), ACTION("R", "atomic", REQUIRE(GE(CALL("len", V("l")), I(2))), ASSIGN("l", LIST()), ASSIGN("d", DICT()))], opts=OPT))
    P.append(PROG("oneof_iso", [ASSIGN("s", SET()), ASSIGN("l", LIST())], [ACTION("A", "atomic", REQUIRE(LT(CALL("len", V("l")), I(2))), ONEOF(MUT("s", "add", I(1)), MUT("s", "add", I(2)), ATOMIC(MUT("s", "add", I(3)), MUT("l", "append", I(0)))), MUT("l", "append", I(1)))], opts=OPT))
    P.append(PROG("oneof_nested", xy(), [ACTION("A", "atomic", ONEOF(ASSIGN("x", I(1)), ONEOF(ASSIGN("x", I(2)), ATOMIC(ASSIGN("x", I(0)), any_("i", ints(1, 2), ASSIGN("y", V("i")))))), inc("y"))], opts=OPT))
    P.append(PROG("oneof_action", xy(), [ACTION("A", "oneof", inc("x"), inc("y"), ATOMIC(ASSIGN("x", I(0)), ASSIGN("y", I(0))), SERIAL(ASSIGN("x", I(2)), ASSIGN("y", I(2))))], opts=OPT))
    P.append(PROG("oneof_serial", xy(), [ACTION("A", "serial", ONEOF(inc("x"), inc("y")), ONEOF(inc("x"), SERIAL(inc("y"), inc("x"))))], opts=OPT))
    P.append(PROG("initchoice2", [CHOOSE("x", ints(0, 1, 2)), CHOOSE("y", ints(0, 1), cond=LE(V("y"), V("x")))], [ACTION("A", "atomic", ASSIGN("x", V("y")))], opts=OPT))
    P.append(PROG("init_oneof", xy() + [ONEOF(ASSIGN("x", I(1)), ASSIGN("y", I(1)))], [ACTION("A", "atomic", inc("x"))], opts=OPT))
    P.append(PROG("any_set_dict", [ASSIGN("s", SET(I(1), I(2))), ASSIGN("d", DICT((S("a"), I(1)), (S("b"), I(2)))), ASSIGN("x", I(0)), ASSIGN("k", S(""))], [ACTION("A", "atomic", any_("i", V("s"), ASSIGN("x", V("i")))), ACTION("Bb", "atomic", any_("q", V("d"), ASSIGN("k", V("q")), ASSIGN("x", IDX(V("d"), V("q"))))), ACTION("Cc", "atomic", CHOOSE("x", CALL("range", I(3))))], opts=OPT))
    from .gen import SHAPES
    for n, (init, paths) in enumerate(SHAPES):
        for j, (path, kind) in enumerate(paths):
            e, i = path(V("c")), V("i")
            upd = {"list": lambda v: IF((LT(CALL("len", e), I(2)), [MUT(e, "append", v)]), els=[MUT(e, "pop", I(0))]),
                   "set": lambda v: IF((IN(v, e), [MUT(e, "discard", v)]), els=[MUT(e, "add", v)]),
                   "bag": lambda v: IF((LT(CALL("len", e), I(2)), [MUT(e, "add", v)]), els=[MUT(e, "clear")]),
                   "dict": lambda v: ASSIGN(IDX(e, S("a")), v), "rec": lambda v: ASSIGN(ATTR(e, "f"), v), "cell": lambda v: ASSIGN(IDX(e, I(1)), v)}[kind]
            P.append(PROG("shape%d_%d" % (n, j), [ASSIGN("c", init), ASSIGN("x", I(0))], [
                ACTION("A", "atomic", any_("i", ints(0, 1), ASSIGN("x", i), upd(i))),
                ACTION("Bb", "serial", ONEOF(ATOMIC(upd(I(1)), ASSIGN("x", I(2))), ATOMIC(ASSIGN("x", I(1)), upd(I(0)))))], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("any_serial", xy(), [ACTION("A", "serial", any_("i", ints(0, 1), ASSIGN("x", V("i")), ASSIGN("y", V("i")), fl="serial"), inc("x"))], opts=OPT))
    P.append(PROG("any_last_stmt", xy(), [ACTION("A", "atomic", any_("i", ints(0, 1), IF((EQ(V("i"), V("x")), [ASSIGN("y", I(1))]), els=[ASSIGN("x", V("i"))])), inc("y"))], opts=OPT))
    P.append(PROG("any_struct", [ASSIGN("p", TUP(I(0), S("a")))], [ACTION("A", "atomic", CHOOSE("p", LIST(TUP(I(0), S("b")), TUP(I(1), S("a")), TUP(I(0), S("a")))))], opts=OPT))
    P.append(PROG("any_dup", xy(), [ACTION("A", "atomic", any_("i", ints(1, 1, 2), ASSIGN("x", V("i"))))], opts=OPT))
    P.append(PROG("same_result", xy(), [ACTION("A", "atomic", any_("i", ints(0, 1), any_("j", ints(0, 1), ASSIGN("x", ADD(V("i"), V("j"))))))], opts=OPT))
    P.append(PROG("oneofpass", xy(), [ACTION("A", "atomic", REQUIRE(EQ(V("y"), I(0))), ASSIGN("y", I(1)), ONEOF(PASS(), ASSIGN("x", I(1)), ASSIGN("x", I(2))))], opts=OPT))
    P.append(PROG("oneofpass2", xy(), [ACTION("A", "oneof", PASS(), ASSIGN("x", I(1)), ASSIGN("x", I(2)))], opts=OPT))
    P.append(PROG("oneofchoose", xy(), [ACTION("A", "oneof", CHOOSE("x", ints(1, 2)), ASSIGN("y", I(2)))], opts=OPT))
    P.append(PROG("oneofany", xy(), [ACTION("A", "oneof", any_("i", ints(1, 2), ASSIGN("x", V("i"))), ASSIGN("y", I(2)))], opts=OPT))
    P.append(PROG("oneofany2", xy(), [ACTION("A", "oneof", ATOMIC(ANY("i", ints(1, 2), ASSIGN("x", V("i")))), ASSIGN("y", I(2)))], opts=OPT))
    P.append(PROG("oneofif", xy(), [ACTION("A", "oneof", IF((EQ(V("x"), I(0)), [ASSIGN("x", I(1)), ASSIGN("y", I(1))]), flow="atomic"), ASSIGN("y", I(2)))], opts=OPT))
    P.append(PROG("oneoffor", xy(), [ACTION("A", "oneof", FOR("atomic", "i", ints(1, 2), ASSIGN("x", V("i"))), ASSIGN("y", I(2)))], opts=OPT))
    P.append(PROG("oneofreq", xy(), [ACTION("A", "oneof", ATOMIC(REQUIRE(EQ(V("x"), I(0))), ASSIGN("x", I(1))), ATOMIC(REQUIRE(EQ(V("x"), I(1))), ASSIGN("x", I(2))))], opts=OPT))
    P.append(PROG("oneofcall", xy(), [ACTION("A", "atomic", ONEOF(FCALL("f", I(1), var="x"), FCALL("f", I(2), var="x"), ASSIGN("y", I(1))))], funcs=[FUNC("f", "atomic", ["z"], RETURN(V("z")))], opts=OPT))
    return P


def parallel():
    P = []
    P.append(PROG("par_incs", xy(), [ACTION("A", "parallel", ASSIGN("x", I(1)), ASSIGN("y", V("x")))], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("par_serial", [ASSIGN("a", I(0)), ASSIGN("b", I(0)), ASSIGN("c", I(0))], [ACTION("A", "parallel", SERIAL(ASSIGN("a", I(1)), ASSIGN("b", I(1))), ASSIGN("c", I(1)))], opts=OPT))
    P.append(PROG("par_mixed", [ASSIGN("a", I(0)), ASSIGN("b", I(0)), ASSIGN("c", I(0))], [ACTION("A", "parallel", ATOMIC(ASSIGN("a", I(1)), ASSIGN("b", I(1))), ASSIGN("c", I(1)), SERIAL(ASSIGN("c", I(2)), ASSIGN("b", I(0))))], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("par_three", [ASSIGN("l", I(0))], [ACTION("A", "serial", ASSIGN("l", I(0)), PARALLEL(ASSIGN("l", MOD(ADD(V("l"), I(1)), I(5))), ASSIGN("l", MOD(BIN("*", V("l"), I(2)), I(5))), ASSIGN("l", MOD(ADD(V("l"), I(3)), I(5)))), ASSIGN("l", MOD(BIN("*", V("l"), I(3)), I(5))))], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("par_then", xy(), [ACTION("A", "serial", PARALLEL(inc("x"), inc("y")), ASSIGN("x", V("y")))], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("par_other", xy(), [ACTION("A", "serial", PARALLEL(ASSIGN("x", I(1)), ASSIGN("y", I(1)))), ACTION("Bb", "atomic", REQUIRE(NE(V("x"), V("y"))), ASSIGN("x", I(2)))], opts=OPT))
    P.append(PROG("par_any", xy(), [ACTION("A", "parallel", any_("i", ints(1, 2), ASSIGN("x", V("i"))), ASSIGN("y", I(2)))], opts=OPT))
    P.append(PROG("par_any2", xy(), [ACTION("A", "parallel", ATOMIC(ANY("i", ints(1, 2), ASSIGN("x", V("i")))), ASSIGN("y", I(2)))], opts=OPT))
    P.append(PROG("parpass", xy(), [ACTION("A", "parallel", PASS(), ASSIGN("x", I(1)), ASSIGN("y", I(2)))], opts=OPT))
    P.append(PROG("parchoose", xy(), [ACTION("A", "parallel", CHOOSE("x", ints(1, 2)), ASSIGN("y", I(2)))], opts=OPT))
    P.append(PROG("par_for", [ASSIGN("l", LIST()), ASSIGN("g", I(0))], [ACTION("A", "serial", REQUIRE(EQ(V("g"), I(0))), ATOMIC(ASSIGN("g", I(1)), ASSIGN("l", LIST())), FOR("parallel", "i", ints(0, 1, 2), ATOMIC(MUT("l", "append", V("i")))), ASSIGN("g", I(2))), ACTION("R", "atomic", REQUIRE(EQ(V("g"), I(2))), ASSIGN("g", I(0)))], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("par_oneof", xy(), [ACTION("A", "parallel", ONEOF(ASSIGN("x", I(1)), ASSIGN("x", I(2))), inc("y"))], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("par_nested", [ASSIGN("a", I(0)), ASSIGN("b", I(0)), ASSIGN("c", I(0))], [ACTION("A", "parallel", SERIAL(ASSIGN("a", I(1)), PARALLEL(ASSIGN("b", I(1)), ASSIGN("b", I(2)))), ASSIGN("c", I(1)))], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("par_atomic", xy(), [ACTION("A", "atomic", PARALLEL(ASSIGN("x", I(1)), ASSIGN("x", I(2))))], opts=OPT))
    P.append(PROG("par_two_actions", xy(), [ACTION("A", "parallel", ASSIGN("x", I(1)), ASSIGN("x", I(2))), ACTION("Bb", "parallel", ASSIGN("y", I(1)), ASSIGN("y", V("x")))], opts=OPT))
    one = opt(max_concurrent_actions=1)
    # what remains of a parallel loop is part of the state
    P.append(PROG("par_for_last", xy(), [ACTION("A", "serial", REQUIRE(EQ(V("x"), I(0))), FOR("parallel", "i", ints(0, 1, 2), ATOMIC(ASSIGN("x", ADD(V("x"), I(1))), IF((EQ(V("x"), I(3)), [ASSIGN("y", V("i"))]))))), ACTION("R", "atomic", REQUIRE(EQ(V("x"), I(3))), ASSIGN("x", I(0)))], opts=one))
    P.append(PROG("par_for_last4", xy(), [ACTION("A", "parallel", FOR("parallel", "i", ints(3, 1, 1, 2), ATOMIC(ASSIGN("x", MOD(ADD(V("x"), I(1)), I(5))), IF((EQ(V("x"), I(3)), [ASSIGN("y", V("i"))])))))], opts=one))
    P.append(PROG("par_for_first", xy(), [ACTION("A", "serial", REQUIRE(EQ(V("x"), I(0))), FOR("parallel", "i", ints(0, 1, 2), ATOMIC(ASSIGN("x", ADD(V("x"), I(1))), IF((EQ(V("x"), I(1)), [ASSIGN("y", V("i"))]))))), ACTION("R", "atomic", REQUIRE(EQ(V("x"), I(3))), ASSIGN("x", I(0)))], opts=OPT))
    P.append(PROG("par_for_calls", [ASSIGN("l", LIST())], [ACTION("A", "serial", REQUIRE(EQ(V("l"), LIST())), FOR("parallel", "i", ints(0, 1, 2), MUT("l", "append", V("i"))))], opts=one))
    # many statements
    for n in (4, 5, 6):
        P.append(PROG("par_many%d" % n, [ASSIGN("l", LIST())], [ACTION("A", "serial", REQUIRE(LE(CALL("len", V("l")), I(0))), PARALLEL(*[MUT("l", "append", I(i)) if i < 2 or i == n - 1 else PASS() for i in range(n)]))], opts=one))
        P.append(PROG("par_bits%d" % n, [ASSIGN("x", I(0))], [ACTION("A", "serial", REQUIRE(EQ(V("x"), I(0))), PARALLEL(*[ASSIGN("x", ADD(V("x"), I(1 << i))) for i in range(n)]), ASSIGN("x", I(0)))], opts=one))
    P.append(PROG("par_par", [ASSIGN("x", I(0))], [ACTION("A", "serial", REQUIRE(EQ(V("x"), I(0))), PARALLEL(*[ASSIGN("x", ADD(V("x"), I(1 << i))) for i in range(3)]), PARALLEL(*[ASSIGN("x", SUB(V("x"), I(1 << i))) for i in range(3)]))], opts=one))
    P.append(PROG("par_in_for", [ASSIGN("x", I(0))], [ACTION("A", "serial", REQUIRE(EQ(V("x"), I(0))), FOR("serial", "i", ints(1, 2), PARALLEL(ASSIGN("x", MOD(ADD(V("x"), V("i")), I(7))), ASSIGN("x", MOD(BIN("*", V("x"), I(2)), I(7))))))], opts=one))
    return P


def control():
    P = []
    L = opt(max_concurrent_actions=1)
    P.append(PROG("loops", [ASSIGN("x", I(0)), ASSIGN("y", LIST())],
        [ACTION("A", "serial", REQUIRE(EQ(V("x"), I(0))), ASSIGN("y", LIST()), FOR("serial", "i", CALL("range", I(3)), IF((EQ(V("i"), I(1)), [CONTINUE()])), MUT("y", "append", V("i"))), ASSIGN("x", I(1))),
         ACTION("Bx", "serial", REQUIRE(EQ(V("x"), I(1))), WHILE("serial", GT(CALL("len", V("y")), I(0)), MUT("y", "pop")), ASSIGN("x", I(2))),
         ACTION("Cx", "atomic", REQUIRE(AND(EQ(V("x"), I(2)), LT(CALL("len", V("y")), I(3)))), FOR("parallel", "i", CALL("range", I(2)), MUT("y", "append", V("i"))), ASSIGN("x", I(3)))], opts=L))
    P.append(PROG("funcs", xy(), [ACTION("A", "atomic", REQUIRE(LT(V("x"), I(2))), FCALL("f", V("x"), var="x"), LBL("done", ASSIGN("y", I(0))))],
        funcs=[FUNC("f", "atomic", ["z"], ASSIGN("y", I(1)), FCALL("gg", V("z"), var="w"), RETURN(ADD(V("w"), I(1)))), FUNC("gg", "atomic", ["q", "r"], RETURN(ADD(V("q"), V("r"))), defaults={"r": I(0)})], opts=OPT))
    P.append(PROG("nested_break", [ASSIGN("n", I(0))], [ACTION("A", "atomic", ASSIGN("n", I(0)), FOR("atomic", "i", CALL("range", I(3)), FOR("atomic", "j", CALL("range", I(3)), IF((EQ(V("j"), I(2)), [BREAK()])), IF((EQ(V("i"), I(1)), [CONTINUE()])), ASSIGN("n", ADD(V("n"), I(1)))), ASSIGN("n", ADD(V("n"), I(10)))))], opts=OPT))
    P.append(PROG("while_break", xy(), [ACTION("A", "atomic", ASSIGN("t", I(0)), WHILE("atomic", B(True), ASSIGN("t", ADD(V("t"), I(1))), IF((GT(V("t"), ADD(V("x"), I(1))), [BREAK()])), IF((EQ(V("t"), I(1)), [CONTINUE()])), inc("y")), inc("x"))], opts=OPT))
    P.append(PROG("while_serial_cond", xy(), [ACTION("A", "serial", WHILE("serial", LT(V("x"), I(2)), ASSIGN("x", ADD(V("x"), I(1))), inc("y"))), ACTION("R", "atomic", ASSIGN("x", I(0)))], opts=OPT))
    P.append(PROG("if_chain", xy(), [ACTION("A", "atomic", IF((EQ(V("x"), I(0)), [ASSIGN("x", I(1))]), (EQ(V("x"), I(1)), [ASSIGN("x", I(2)), ASSIGN("y", I(1))]), els=[ASSIGN("x", I(0)), IF((EQ(V("y"), I(1)), [ASSIGN("y", I(2))]), els=[ASSIGN("y", I(0))])]))], opts=OPT))
    P.append(PROG("func_effects", xy(), [ACTION("A", "atomic", FCALL("bump"), FCALL("bump"), FCALL("rd", var="y"))],
        funcs=[FUNC("bump", "atomic", [], inc("x", 1, 5)), FUNC("rd", "atomic", [], RETURN(V("x")))], opts=OPT))
    P.append(PROG("func_noret", xy(), [ACTION("A", "atomic", ASSIGN("x", I(1)), FCALL("f", I(1), var="y"))], funcs=[FUNC("f", "atomic", ["z"], IF((EQ(V("y"), I(0)), [RETURN(I(7))])), ASSIGN("x", I(2)))], opts=OPT))
    P.append(PROG("func_loop_return", xy(), [ACTION("A", "atomic", FCALL("find", V("y"), var="x"), inc("y", 1, 4))],
        funcs=[FUNC("find", "atomic", ["k"], FOR("atomic", "i", ints(2, 1, 0), IF((EQ(V("i"), V("k")), [RETURN(ADD(V("i"), I(10)))]))), RETURN(I(-1)))], opts=OPT))
    P.append(PROG("func_args", xy(), [ACTION("A", "atomic", FCALL("f", V("x"), var="y", kw=[("b", I(2))])), ACTION("Bb", "atomic", FCALL("f", V("y"), var="x"))],
        funcs=[FUNC("f", "atomic", ["a", "b"], ASSIGN("a", ADD(V("a"), V("b"))), RETURN(MOD(V("a"), I(4))), defaults={"b": I(1)})], opts=OPT))
    P.append(PROG("func_choice", xy(), [ACTION("A", "atomic", FCALL("pick", var="x"), FCALL("pick", var="y"))], funcs=[FUNC("pick", "atomic", [], ANY("i", ints(0, 1), RETURN(V("i"))))], opts=OPT))
    P.append(PROG("rec_func", [ASSIGN("x", I(0))], [ACTION("A", "atomic", FCALL("s", I(3), var="x")), ACTION("Bb", "atomic", FCALL("s", I(1), var="x"))],
        funcs=[FUNC("s", "atomic", ["n"], IF((LE(V("n"), I(0)), [RETURN(I(0))])), FCALL("s", SUB(V("n"), I(1)), var="r"), RETURN(ADD(V("r"), V("n"))))], opts=OPT))
    P.append(PROG("anybreak", xy(), [ACTION("A", "atomic", REQUIRE(EQ(V("y"), I(0))), FOR("atomic", "k", CALL("range", I(3)), ANY("i", ints(1, 2), IF((EQ(V("k"), I(1)), [BREAK()])), ASSIGN("x", MOD(ADD(V("x"), V("i")), I(5))))), ASSIGN("y", I(1)))], opts=OPT))
    P.append(PROG("anycont", xy(), [ACTION("A", "serial", REQUIRE(EQ(V("y"), I(0))), FOR("serial", "k", CALL("range", I(3)), any_("i", ints(1, 2), IF((EQ(V("k"), I(1)), [CONTINUE()])), ASSIGN("x", MOD(ADD(V("x"), V("i")), I(5))))), ASSIGN("y", I(1)))], opts=OPT))
    P.append(PROG("for_snapshot", [ASSIGN("l", ints(0, 1)), ASSIGN("s", I(0))], [ACTION("A", "serial", FOR("serial", "i", V("l"), ASSIGN("s", MOD(ADD(V("s"), V("i")), I(3)))), ASSIGN("l", ints(2))), ACTION("Bb", "atomic", ASSIGN("l", ints(1, 1)))], opts=OPT))
    P.append(PROG("for_serial_break", xy(), [ACTION("A", "serial", FOR("serial", "i", ints(0, 1, 2), IF((EQ(V("x"), I(2)), [BREAK()])), inc("y")), ASSIGN("x", I(2)))], opts=OPT))
    P.append(PROG("for_dict", [ASSIGN("d", DICT((S("a"), I(1)), (S("b"), I(2)))), ASSIGN("s", I(0))], [ACTION("A", "atomic", ASSIGN("s", I(0)), FOR("atomic", "k", V("d"), ASSIGN("s", ADD(V("s"), IDX(V("d"), V("k"))))))], opts=OPT))
    P.append(PROG("hide_param", xy(), [ACTION("A", "atomic", FCALL("f", V("y"), var="y"), inc("x")), ACTION("Bb", "atomic", FCALL("f", I(1), var="x"))], funcs=[FUNC("f", "atomic", ["x"], ASSIGN("x", ADD(V("x"), I(1))), RETURN(MOD(V("x"), I(3))))], opts=OPT))
    P.append(PROG("hide_param_call", xy(), [ACTION("A", "atomic", FCALL("f", V("y"), var="y"), inc("x"))], funcs=[FUNC("g", "atomic", ["z"], ASSIGN("x", V("z")), RETURN(V("x"))), FUNC("f", "atomic", ["x"], FCALL("g", I(2), var="x"), RETURN(MOD(ADD(V("x"), I(1)), I(3))))], opts=OPT))
    P.append(PROG("hide_for", xy(), [ACTION("A", "atomic", FOR("atomic", "x", ints(1, 2), ASSIGN("y", V("x"))), inc("y", 1, 4)), ACTION("Bb", "atomic", inc("x"))], opts=OPT))
    P.append(PROG("hide_for_serial", xy(), [ACTION("A", "serial", FOR("serial", "x", ints(1, 2), ASSIGN("y", V("x")), ASSIGN("x", I(0)), ASSIGN("y", V("x"))), inc("y", 1, 4)), ACTION("Bb", "atomic", inc("x"))], opts=OPT))
    P.append(PROG("hide_any", xy(), [ACTION("A", "atomic", any_("x", ints(1, 2), ASSIGN("y", V("x")))), ACTION("Bb", "atomic", inc("x"))], opts=OPT))
    P.append(PROG("hide_any_serial", xy(), [ACTION("A", "serial", any_("x", ints(1, 2), ASSIGN("x", I(2)), ASSIGN("y", V("x")), fl="serial"), ASSIGN("x", V("y"))), ACTION("Bb", "atomic", inc("x"))], opts=OPT))
    P.append(PROG("hide_method", xy() + [ASSIGN("n", NEWROLE("Node"))], [], roles=[ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("u"), I(0))), ACTION("Go", "serial", FCALL("g", V("x"), recv="self", var="y"), inc("x"))],
        [FUNC("g", "serial", ["x"], ASSIGN("x", MOD(ADD(V("x"), I(1)), I(3))), ASSIGN(SELF("u"), V("x")), ASSIGN("y", V("x")), RETURN(V("x")))])], opts=OPT))
    P.append(PROG("local_not_state", xy(), [ACTION("A", "atomic", FCALL("f", V("x"), var="x")), ACTION("Bb", "serial", ASSIGN("t", V("x")), inc("y"), ASSIGN("x", V("t")))], funcs=[FUNC("f", "atomic", ["p"], ASSIGN("t", ADD(V("p"), I(1))), ASSIGN("u", V("t")), RETURN(MOD(V("u"), I(3))))], opts=OPT))
    P.append(PROG("init_locals", [ASSIGN("x", I(0)), FOR("atomic", "i", ints(1, 2), ASSIGN("x", ADD(V("x"), V("i")))), FCALL("f", V("x"), var="y")], [ACTION("A", "atomic", inc("y"))], funcs=[FUNC("f", "atomic", ["p"], ASSIGN("t", ADD(V("p"), I(1))), RETURN(MOD(V("t"), I(3))))], opts=OPT))
    P.append(PROG("while_false", xy(), [ACTION("A", "atomic", WHILE("atomic", LT(V("x"), I(0)), ASSIGN("y", I(1))), inc("x"))], opts=OPT))
    P.append(PROG("for_empty", xy(), [ACTION("A", "serial", FOR("serial", "i", ints(), ASSIGN("y", V("i"))), inc("x"))], opts=OPT))
    # None is a value: as argument, as result, against a default
    P.append(PROG("none_arg", [ASSIGN("x", N()), ASSIGN("y", I(0)), ASSIGN("w", I(0))], [ACTION("A", "atomic", FCALL("f", N(), var="y")), ACTION("Bb", "atomic", FCALL("f", var="y")), ACTION("Cc", "atomic", FCALL("f", I(1), N(), var="x")),
        ACTION("Dd", "atomic", FCALL("f", V("x"), var="y", kw=[("b", V("x"))])), ACTION("Ee", "atomic", FCALL("g", I(0), var="x"))],
        funcs=[FUNC("f", "atomic", ["a", "b"], IF((EQ(V("a"), N()), [ASSIGN("w", I(1)), RETURN(V("b"))])), ASSIGN("w", I(2)), RETURN(IFE(EQ(V("b"), N()), I(7), V("a"))), defaults={"a": I(2), "b": I(3)}),
               FUNC("g", "atomic", ["a"], ASSIGN("w", I(3)))], opts=OPT))
    P.append(PROG("falsy_args", [ASSIGN("x", I(9))], [ACTION("A" + str(i), "atomic", FCALL("f", e, var="x")) for i, e in enumerate((I(0), S(""), B(False), LIST(), DICT(), N()))],
        funcs=[FUNC("f", "atomic", ["a"], RETURN(TUP(V("a"), I(1))), defaults={"a": I(5)})], opts=OPT))
    P.append(PROG("default_expr", xy(), [ACTION("A", "atomic", FCALL("f", var="x")), ACTION("Bb", "atomic", FCALL("f", I(0), var="x")), ACTION("Cc", "atomic", inc("y"))],
        funcs=[FUNC("f", "atomic", ["a", "b"], RETURN(MOD(ADD(V("a"), V("b")), I(4))), defaults={"a": ADD(I(1), I(1)), "b": I(1)})], opts=OPT))
    P.append(PROG("kwargs_order", [ASSIGN("x", TUP())], [ACTION("A", "atomic", FCALL("f", var="x", kw=[("b", I(1)), ("a", I(2))])), ACTION("Bb", "atomic", FCALL("f", I(3), var="x", kw=[("c", I(4))])), ACTION("Cc", "atomic", FCALL("f", I(5), I(6), I(7), var="x"))],
        funcs=[FUNC("f", "atomic", ["a", "b", "c"], RETURN(TUP(V("a"), V("b"), V("c"))), defaults={"b": I(0), "c": I(9)})], opts=OPT))
    return P


def roles():
    P = []
    N = lambda *acts, funcs=(), **kw: ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("u"), I(0)))] + list(acts), list(funcs), **kw)
    P.append(PROG("two_nodes", [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Node"))], [], roles=[N(ACTION("S", "serial", inc(SELF("u"), 1, 2), inc(SELF("u"), 1, 2)))], opts=opt(max_concurrent_actions=2)))
    P.append(PROG("role_list", [ASSIGN("ns", LIST()), FOR("atomic", "i", ints(1, 2), MUT("ns", "append", NEWROLE("Node", ID=V("i"))))], [], roles=[N(ACTION("S", "atomic", REQUIRE(LT(SELF("u"), I(2))), ASSIGN(SELF("u"), SELF("ID"))))], opts=OPT))
    P.append(PROG("call_atomic", [ASSIGN("a", NEWROLE("Node")), ASSIGN("c", NEWROLE("Cli")), ASSIGN("x", I(0))], [],
        roles=[N(funcs=[FUNC("f", "atomic", ["p"], ASSIGN(SELF("u"), MOD(ADD(SELF("u"), V("p")), I(3))), RETURN(SELF("u")))]),
               ROLE("Cli", [ACTION("Go", "atomic", FCALL("f", I(1), recv="a", var="x"), FCALL("f", V("x"), recv="a", var="x"))])], opts=OPT))
    P.append(PROG("call_serial", [ASSIGN("a", NEWROLE("Node")), ASSIGN("c", NEWROLE("Cli"))], [],
        roles=[N(funcs=[FUNC("f", "serial", ["p"], ASSIGN(SELF("u"), V("p")), ASSIGN(SELF("u"), I(0)), RETURN(ADD(V("p"), I(1))))]),
               ROLE("Cli", [ACTION("Init", "atomic", ASSIGN(SELF("r"), I(0))), ACTION("Go", "serial", FCALL("f", I(1), recv="a", var="q"), ASSIGN(SELF("r"), V("q")), ASSIGN(SELF("r"), I(0)))])], opts=OPT))
    P.append(PROG("call_chain", [ASSIGN("d", NEWROLE("Db")), ASSIGN("s", NEWROLE("Srv")), ASSIGN("c", NEWROLE("Cli")), ASSIGN("out", I(0))], [],
        roles=[ROLE("Db", [ACTION("Init", "atomic", ASSIGN(SELF("v"), I(0)))], [FUNC("put", "serial", ["z"], ASSIGN(SELF("v"), V("z")), RETURN(S("ok")))]),
               ROLE("Srv", [ACTION("Init", "atomic", ASSIGN(SELF("n"), I(0)))], [FUNC("w", "serial", ["z"], inc(SELF("n"), 1, 2), FCALL("put", V("z"), recv="d", var="r"), RETURN(V("r")))]),
               ROLE("Cli", [ACTION("Go", "serial", FCALL("w", I(1), recv="s", var="k"), IF((EQ(V("k"), S("ok")), [inc("out", 1, 2)])))])], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("self_call", [ASSIGN("a", NEWROLE("Node"))], [], roles=[N(ACTION("S", "serial", FCALL("f", I(1), recv="self", var="q"), ASSIGN(SELF("u"), V("q"))), funcs=[FUNC("f", "serial", ["p"], ASSIGN(SELF("u"), I(2)), RETURN(V("p")))])], opts=OPT))
    P.append(PROG("role_choice", [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Node")), ASSIGN("ns", LIST(V("a"), V("b")))], [ACTION("Pick", "atomic", any_("n", V("ns"), ASSIGN(ATTR(V("n"), "u"), MOD(ADD(ATTR(V("n"), "u"), I(1)), I(3)))))], roles=[N()], opts=OPT))
    P.append(PROG("role_any_call", [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Node")), ASSIGN("ns", LIST(V("a"), V("b"))), ASSIGN("c", NEWROLE("Cli"))], [],
        roles=[N(funcs=[FUNC("f", "atomic", [], inc(SELF("u"), 1, 2))]), ROLE("Cli", [ACTION("Go", "atomic", any_("n", V("ns"), FCALL("f", recv="n")))])], opts=OPT))
    P.append(PROG("role_params", [ASSIGN("a", NEWROLE("Node", K=I(2), NAME=S("p"))), ASSIGN("b", NEWROLE("Node", K=I(1), NAME=S("q")))], [],
        roles=[ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("u"), SELF("K"))), ACTION("S", "atomic", ASSIGN(SELF("u"), MOD(ADD(SELF("u"), SELF("K")), I(4))), RETURN(SELF("NAME")))])], opts=OPT))
    P.append(PROG("role_returns", [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Node"))], [], roles=[N(ACTION("S", "atomic", inc(SELF("u"), 1, 2), RETURN(SELF("u"))))], opts=OPT))
    P.append(PROG("argmerge", [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Cli")), CHOOSE("x", ints(0, 1))], [],
        roles=[N(funcs=[FUNC("f", "serial", ["p"], ASSIGN("x", I(2)), ASSIGN(SELF("u"), I(1)), ASSIGN(SELF("u"), ADD(V("p"), I(5))))]),
               ROLE("Cli", [ACTION("Init", "atomic", ASSIGN(SELF("c"), I(0))), ACTION("Go", "serial", REQUIRE(LT(V("x"), I(2))), FCALL("f", V("x"), recv="a"))])], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("serial_interleave_calls", [ASSIGN("a", NEWROLE("Node")), ASSIGN("c", NEWROLE("Cli")), ASSIGN("d", NEWROLE("Cli"))], [],
        roles=[N(funcs=[FUNC("f", "serial", [], ASSIGN("t", SELF("u")), ASSIGN(SELF("u"), MOD(ADD(V("t"), I(1)), I(3))))]), ROLE("Cli", [ACTION("Go", "serial", FCALL("f", recv="a"))])], opts=opt(max_concurrent_actions=2)))
    P.append(PROG("role_require", [ASSIGN("a", NEWROLE("Node")), ASSIGN("c", NEWROLE("Cli"))], [],
        roles=[N(funcs=[FUNC("f", "atomic", ["p"], REQUIRE(EQ(SELF("u"), V("p"))), inc(SELF("u"), 1, 2))]), ROLE("Cli", [ACTION("Init", "atomic", ASSIGN(SELF("k"), I(0))), ACTION("Go", "atomic", inc(SELF("k"), 1, 2), FCALL("f", SELF("k"), recv="a")), ACTION("Fix", "atomic", ASSIGN(SELF("k"), I(1)))])], opts=OPT))
    two = [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Node")), ASSIGN("ns", LIST(V("a"), V("b")))]
    incn = lambda: ASSIGN(ATTR(V("n"), "u"), MOD(ADD(ATTR(V("n"), "u"), I(1)), I(3)))
    for fl in ("atomic", "serial", "parallel"):
        P.append(PROG("for_nodes_" + fl, two, [ACTION("A", "serial", FOR(fl, "n", V("ns"), *([incn(), incn()] if fl != "parallel" else [ATOMIC(incn())])))], roles=[N()], opts=OPT))
        P.append(PROG("for_nodes_call_" + fl, two + [ASSIGN("c", NEWROLE("Cli"))], [], roles=[N(funcs=[FUNC("f", "atomic" if fl != "serial" else "serial", ["p"], inc(SELF("u"), 1, 2), ASSIGN("c2", V("p")))]),
            ROLE("Cli", [ACTION("Go", "serial", FOR(fl, "n", V("ns"), FCALL("f", I(1), recv="n") if fl != "parallel" else ATOMIC(FCALL("f", I(1), recv="n"))))])], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("any_nodes_serial", two, [ACTION("A", "serial", any_("n", V("ns"), incn(), incn(), fl="serial"), inc(ATTR(V("a"), "u"), 1, 2))], roles=[N()], opts=OPT))
    P.append(PROG("nodes_in_dict", [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Node")), ASSIGN("d", DICT((S("l"), LIST(V("a"))), (S("s"), TUP(V("b"), V("a")))))],
        [ACTION("A", "serial", FOR("serial", "n", IDX(V("d"), S("s")), incn()), ASSIGN(ATTR(IDX(IDX(V("d"), S("l")), I(0)), "u"), I(0)))], roles=[N()], opts=OPT))
    P.append(PROG("nodes_in_struct", [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Node")), ASSIGN("m", STRUCT(to=V("a"), k=I(1)))],
        [ACTION("A", "atomic", ASSIGN(ATTR(ATTR(V("m"), "to"), "u"), I(1))), ACTION("Bb", "atomic", ASSIGN("m", STRUCT(to=V("b"), k=I(1)))), ACTION("Cc", "atomic", ASSIGN(ATTR(V("a"), "u"), I(0)))], roles=[N()], opts=OPT))
    P.append(PROG("ring", [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Node")), ASSIGN(ATTR(V("a"), "p"), V("b")), ASSIGN(ATTR(V("b"), "p"), V("a"))], [],
        roles=[N(ACTION("S", "serial", inc(SELF("u"), 1, 2), ASSIGN(ATTR(SELF("p"), "u"), MOD(ADD(ATTR(SELF("p"), "u"), I(1)), I(2)))))], opts=OPT))
    P.append(PROG("peers", [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Node")), ASSIGN("ns", LIST(V("a"), V("b")))],
        [ACTION("Lk", "atomic", REQUIRE(EQ(CALL("len", ATTR(V("a"), "p")), I(0))), ASSIGN(ATTR(V("a"), "p"), V("ns")), ASSIGN(ATTR(V("b"), "p"), V("ns")))],
        roles=[ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("u"), I(0)), ASSIGN(SELF("p"), LIST())), ACTION("S", "serial", FOR("serial", "q", SELF("p"), ASSIGN(ATTR(V("q"), "u"), MOD(ADD(ATTR(V("q"), "u"), I(1)), I(2)))))])], opts=OPT))
    P.append(PROG("role_ref_state", [ASSIGN("a", NEWROLE("Node")), ASSIGN("b", NEWROLE("Node")), ASSIGN("cur", V("a"))], [ACTION("Sw", "atomic", IF((EQ(V("cur"), V("a")), [ASSIGN("cur", V("b"))]), els=[ASSIGN("cur", V("a"))])), ACTION("W", "atomic", ASSIGN(ATTR(V("cur"), "u"), I(1)))], roles=[N()], opts=OPT))
    # collections that mix roles: what runs for each is that instance
    N1 = lambda n: ROLE(n, [ACTION("Init", "atomic", ASSIGN(SELF("u"), I(0)))], [FUNC("f", "atomic", ["p"], ASSIGN(SELF("u"), MOD(ADD(SELF("u"), V("p")), I(3))))])
    mixed = [ASSIGN("a", NEWROLE("N1")), ASSIGN("b", NEWROLE("N2")), ASSIGN("ns", LIST(V("a"), V("b")))]
    up = lambda: ASSIGN(ATTR(V("n"), "u"), MOD(ADD(ATTR(V("n"), "u"), I(1)), I(3)))
    P.append(PROG("mixed_any", mixed, [ACTION("A", "atomic", any_("n", V("ns"), up()))], roles=[N1("N1"), N1("N2")], opts=OPT))
    P.append(PROG("mixed_any_serial", mixed, [ACTION("A", "serial", any_("n", V("ns"), up(), up(), fl="serial"))], roles=[N1("N1"), N1("N2")], opts=OPT))
    P.append(PROG("mixed_choose", mixed + [ASSIGN("cur", V("a"))], [ACTION("A", "atomic", CHOOSE("cur", V("ns"))), ACTION("W", "atomic", ASSIGN(ATTR(V("cur"), "u"), I(1)))], roles=[N1("N1"), N1("N2")], opts=OPT))
    for fl in ("atomic", "serial", "parallel"):
        P.append(PROG("mixed_for_" + fl, mixed + [ASSIGN("x", I(0))], [ACTION("A", "serial", FOR(fl, "n", V("ns"), ATOMIC(ASSIGN("x", MOD(ADD(V("x"), I(1)), I(3))), ASSIGN(ATTR(V("n"), "u"), V("x")))))], roles=[N1("N1"), N1("N2")], opts=opt(max_concurrent_actions=1)))
    P.append(PROG("mixed_call", mixed + [ASSIGN("c", NEWROLE("Cli"))], [], roles=[N1("N1"), N1("N2"), ROLE("Cli", [ACTION("Go", "serial", any_("n", V("ns"), FCALL("f", I(1), recv="n")))])], opts=OPT))
    P.append(PROG("mixed_set", [ASSIGN("a", NEWROLE("N1")), ASSIGN("b", NEWROLE("N2")), ASSIGN("c", NEWROLE("N1")), ASSIGN("ns", LIST(V("c"), V("b"), V("a"))), ASSIGN("x", I(0))],
        [ACTION("A", "serial", FOR("parallel", "n", V("ns"), ATOMIC(ASSIGN("x", MOD(ADD(V("x"), I(1)), I(4))), ASSIGN(ATTR(V("n"), "u"), V("x"))))), ACTION("S", "atomic", ASSIGN("ns", LIST(V("b"), V("c"))))], roles=[N1("N1"), N1("N2")], opts=opt(max_concurrent_actions=1)))
    return P


def crash():
    P = []
    N_ = ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("v"), I(0)), ASSIGN(SELF("w"), I(0))),
        ACTION("Act", "serial", REQUIRE(EQ(SELF("v"), I(0))), ASSIGN(SELF("w"), I(1)), ATOMIC(ASSIGN(SELF("v"), I(1)), ASSIGN(SELF("w"), I(5)), ANY("i", ints(0, 1), ASSIGN(SELF("w"), ADD(V("i"), I(2))), ASSIGN(SELF("v"), I(2)))))], [], durable=["v"])
    P.append(PROG("midcrash", [ASSIGN("x", I(0)), ASSIGN("n", NEWROLE("Node"))], [ACTION("B", "serial", REQUIRE(EQ(V("x"), I(0))), ASSIGN("x", I(1)), ASSIGN("x", I(2)))], roles=[N_], opts=CRASH))
    A_ = ROLE("A", [ACTION("Init", "atomic", ASSIGN(SELF("v"), I(0))), ACTION("Act", "serial", REQUIRE(EQ(SELF("v"), I(0))), ASSIGN(SELF("v"), I(1)), FCALL("f", recv="srv", var="q"), ASSIGN(SELF("v"), I(2)))], [], ephemeral=["v"])
    S_ = ROLE("Srv", [ACTION("Init", "atomic", ASSIGN(SELF("c"), I(0)))], [FUNC("f", "serial", [], ASSIGN(SELF("c"), I(1)), ASSIGN(SELF("c"), I(2)), RETURN(I(7)))], ephemeral=["c"])
    C_ = ROLE("C", [ACTION("Init", "atomic", ASSIGN(SELF("k"), I(0))), ACTION("T", "atomic", REQUIRE(EQ(SELF("k"), I(0))), ASSIGN(SELF("k"), I(1)))], [], ephemeral=["k"])
    P.append(PROG("waitcrash", [ASSIGN("srv", NEWROLE("Srv")), ASSIGN("a", NEWROLE("A")), ASSIGN("c", NEWROLE("C"))], [], roles=[A_, S_, C_], opts=CRASH))
    P.append(PROG("thread_crash", xy(), [ACTION("A", "serial", ASSIGN("x", I(1)), ASSIGN("y", I(1)), ASSIGN("x", I(0)))], opts=CRASH))
    P.append(PROG("thread_crash2", xy(), [ACTION("A", "serial", inc("x"), inc("y")), ACTION("Bb", "atomic", REQUIRE(EQ(V("x"), I(2))), ASSIGN("x", I(0)))], opts=CRASH))
    P.append(PROG("crash_off_action", xy(), [ACTION("A", "serial", inc("x"), inc("y")), ACTION("Bb", "serial", inc("y"), inc("x"))], opts=CRASH, aopts={"A": {"crash_on_yield": False}}))
    two = lambda **kw: ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("d"), I(0)), ASSIGN(SELF("e"), I(0)), ASSIGN(SELF("f"), LIST())), ACTION("S", "serial", ASSIGN(SELF("d"), I(1)), ATOMIC(ASSIGN(SELF("e"), I(1)), ASSIGN(SELF("f"), LIST(I(1)))), ASSIGN(SELF("d"), I(0)))], [], **kw)
    P.append(PROG("durable_d", [ASSIGN("n", NEWROLE("Node"))], [], roles=[two(durable=["d"])], opts=opt(CRASH, max_concurrent_actions=1)))
    P.append(PROG("durable_df", [ASSIGN("n", NEWROLE("Node"))], [], roles=[two(durable=["d", "f"])], opts=opt(CRASH, max_concurrent_actions=1)))
    P.append(PROG("ephemeral_e", [ASSIGN("n", NEWROLE("Node"))], [], roles=[two(ephemeral=["e"])], opts=opt(CRASH, max_concurrent_actions=1)))
    P.append(PROG("ephemeral_ef", [ASSIGN("n", NEWROLE("Node"))], [], roles=[two(ephemeral=["e", "f"])], opts=opt(CRASH, max_concurrent_actions=1)))
    P.append(PROG("no_durability", [ASSIGN("n", NEWROLE("Node"))], [], roles=[two()], opts=opt(CRASH, max_concurrent_actions=1)))
    P.append(PROG("two_instances", [ASSIGN("a", NEWROLE("Node", ID=I(1))), ASSIGN("b", NEWROLE("Node", ID=I(2)))], [], roles=[ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("e"), SELF("ID")), ASSIGN(SELF("d"), I(0))), ACTION("S", "serial", ASSIGN(SELF("e"), I(0)), ASSIGN(SELF("d"), I(1)))], [], ephemeral=["e"])], opts=opt(CRASH, max_concurrent_actions=2)))
    P.append(PROG("mutable_ephemeral", [ASSIGN("n", NEWROLE("Node"))], [], roles=[ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("log"), ints(0)), ASSIGN(SELF("m"), DICT((S("k"), I(0))))), ACTION("S", "atomic", REQUIRE(LT(CALL("len", SELF("log")), I(3))), MUT(SELF("log"), "append", I(1)), ASSIGN(IDX(SELF("m"), S("k")), I(1))), ACTION("T", "atomic", ASSIGN(SELF("m"), DICT()))], [], ephemeral=["log", "m"])], opts=CRASH))
    # the value a field returns to is the one at the end of Init of the instance
    late = lambda **kw: ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("log"), LIST()), ASSIGN(SELF("t"), TUP(LIST(), DICT())), ASSIGN(SELF("n"), I(0))),
        ACTION("S", "atomic", REQUIRE(LT(SELF("n"), I(2))), MUT(SELF("log"), "append", SELF("n")), MUT(IDX(SELF("t"), I(0)), "append", I(1)), ASSIGN(SELF("n"), ADD(SELF("n"), I(1))))], [], **kw)
    for nm, kw in (("log", {"ephemeral": ["log"]}), ("t", {"ephemeral": ["t"]}), ("n", {"durable": ["n"]}), ("nl", {"durable": ["n", "log"]})):
        P.append(PROG("late_init_" + nm, [ASSIGN("n", NEWROLE("Node")), MUT(ATTR(V("n"), "log"), "append", I(9)), ASSIGN(IDX(IDX(ATTR(V("n"), "t"), I(1)), S("k")), I(1))], [], roles=[late(**kw)], opts=CRASH))
    # actions with the names of yield points
    for nm in ("yield", "init"):
        P.append(PROG("named_" + nm, xy(), [ACTION(nm, "serial", REQUIRE(EQ(V("x"), I(0))), any_("i", ints(1, 2), ASSIGN("x", V("i"))), ASSIGN("y", V("x")), ONEOF(ASSIGN("x", I(0)), ASSIGN("x", I(2))))], opts=opt(CRASH, max_concurrent_actions=2)))
    # the initial values differ between branches although the fields are equal again
    P.append(PROG("init_choice", [ASSIGN("n", NEWROLE("Node"))], [], roles=[ROLE("Node", [
        ACTION("Init", "atomic", any_("i", ints(1, 2), ASSIGN(SELF("x"), V("i"))), ASSIGN(SELF("d"), I(0))),
        ACTION("S", "atomic", REQUIRE(EQ(SELF("d"), I(0))), ASSIGN(SELF("x"), I(5)), ASSIGN(SELF("d"), I(1)))], [], ephemeral=["x"])], opts=CRASH))
    P.append(PROG("init_choice_two", [ASSIGN("a", NEWROLE("Node")), ASSIGN("n", NEWROLE("Node"))], [], roles=[ROLE("Node", [
        ACTION("Init", "atomic", ASSIGN(SELF("x"), LIST())),
        ACTION("S", "atomic", REQUIRE(LT(CALL("len", SELF("x")), I(2))), MUT(SELF("x"), "append", I(1)))], [], ephemeral=["x"])], opts=CRASH))
    # initial values that refer to another instance
    for nm, init, get in (("role", SELF("s"), SELF("x")), ("list", LIST(SELF("s")), IDX(SELF("x"), I(0))), ("tuple", TUP(SELF("s"), I(1)), IDX(SELF("x"), I(0))),
                          ("dict", DICT([S("k"), SELF("s")]), IDX(SELF("x"), S("k"))), ("struct", STRUCT(k=SELF("s")), ATTR(SELF("x"), "k"))):
        P.append(PROG("init_ref_" + nm, [ASSIGN("s", NEWROLE("Srv")), ASSIGN("n", NEWROLE("Node", s=V("s")))], [], roles=[
            ROLE("Srv", [ACTION("Init", "atomic", ASSIGN(SELF("c"), I(0)))], [FUNC("inc", "atomic", [], ASSIGN(SELF("c"), ADD(SELF("c"), I(1))), RETURN(SELF("c")))]),
            ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("x"), init), ASSIGN(SELF("d"), I(0)), ASSIGN(SELF("e"), I(0))),
                ACTION("S", "atomic", REQUIRE(LT(SELF("d"), I(2))), REQUIRE(NE(SELF("x"), I(0))), ASSIGN("t", get), FCALL("inc", recv="t", var="r"), ASSIGN(SELF("d"), V("r"))),
                ACTION("Z", "atomic", ASSIGN(SELF("x"), I(0)), ASSIGN(SELF("e"), I(1)))], [], ephemeral=["x"])], opts=CRASH))
    # values that are lost are lost again after every crash
    P.append(PROG("reset_twice", [ASSIGN("n", NEWROLE("Node")), ASSIGN("x", I(0))], [ACTION("G", "atomic", REQUIRE(LT(V("x"), I(2))), ASSIGN("x", ADD(V("x"), I(1))), MUT(ATTR(V("n"), "log"), "append", V("x")))],
        roles=[ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("log"), ints(7))), ACTION("S", "serial", REQUIRE(LT(CALL("len", SELF("log")), I(3))), MUT(SELF("log"), "append", I(5)), MUT(SELF("log"), "pop"))], [], ephemeral=["log"])], opts=CRASH))
    # an action that never crashes at a yield, also while the callee runs
    for nm, ao in (("caller", "Cli.Go"), ("callee", "Srv.w"), ("plain", "Go"), ("other", "Srv.Tick")):
        P.append(PROG("crash_opt_" + nm, [ASSIGN("s", NEWROLE("Srv")), ASSIGN("c", NEWROLE("Cli"))], [], roles=[
            ROLE("Srv", [ACTION("Init", "atomic", ASSIGN(SELF("v"), I(0))), ACTION("Tick", "serial", ASSIGN(SELF("v"), I(3)), ASSIGN(SELF("v"), I(0)))], [FUNC("w", "serial", ["z"], ASSIGN(SELF("v"), V("z")), ASSIGN(SELF("v"), I(2)))], ephemeral=["v"]),
            ROLE("Cli", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("Go", "serial", ASSIGN(SELF("a"), I(1)), FCALL("w", I(1), recv="s"), ASSIGN(SELF("a"), I(0)))], [], durable=["a"])], opts=opt(CRASH, max_concurrent_actions=1), aopts={ao: {"crash_on_yield": False}}))
    P.append(PROG("mutable_durable", [ASSIGN("n", NEWROLE("Node"))], [], roles=[ROLE("Node", [ACTION("Init", "atomic", ASSIGN(SELF("log"), LIST()), ASSIGN(SELF("buf"), LIST())), ACTION("S", "serial", REQUIRE(AND(LT(CALL("len", SELF("log")), I(2)), LT(CALL("len", SELF("buf")), I(2)))), MUT(SELF("buf"), "append", I(1)), ATOMIC(MUT(SELF("log"), "extend", SELF("buf")), ASSIGN(SELF("buf"), LIST())))], [], durable=["log"])], opts=opt(CRASH, max_concurrent_actions=1)))
    P.append(PROG("crash_par", xy(), [ACTION("A", "serial", PARALLEL(ASSIGN("x", I(1)), ASSIGN("y", I(1))), ASSIGN("x", I(0)))], opts=opt(CRASH, max_concurrent_actions=1)))
    P.append(PROG("crash_call", [ASSIGN("s", NEWROLE("Srv")), ASSIGN("c", NEWROLE("Cli"))], [], roles=[
        ROLE("Srv", [ACTION("Init", "atomic", ASSIGN(SELF("v"), I(0)))], [FUNC("w", "serial", ["z"], ASSIGN(SELF("v"), V("z")), ASSIGN(SELF("v"), I(0)), RETURN(S("ok")))], ephemeral=["v"]),
        ROLE("Cli", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("Go", "serial", FCALL("w", I(1), recv="s", var="r"), IF((EQ(V("r"), S("ok")), [ASSIGN(SELF("a"), I(1))])), ASSIGN(SELF("a"), I(0)))], [], ephemeral=["a"])], opts=opt(CRASH, max_concurrent_actions=1)))
    # a waiting caller does not crash, not even after another instance crashed
    P.append(PROG("crash_wait3", [ASSIGN("d", NEWROLE("Oth")), ASSIGN("s", NEWROLE("Srv")), ASSIGN("c", NEWROLE("Cli"))], [], roles=[
        ROLE("Oth", [ACTION("Init", "atomic", ASSIGN(SELF("e"), I(0)), ASSIGN(SELF("n"), I(0))), ACTION("S", "atomic", ASSIGN(SELF("e"), I(1)), ASSIGN(SELF("n"), I(1)))], [], ephemeral=["e"]),
        ROLE("Srv", [ACTION("Init", "atomic", ASSIGN(SELF("v"), I(0)))], [FUNC("w", "serial", ["z"], ASSIGN(SELF("v"), V("z")), ASSIGN(SELF("v"), I(0)))]),
        ROLE("Cli", [ACTION("Init", "atomic", ASSIGN(SELF("a"), I(0))), ACTION("Go", "serial", ASSIGN(SELF("a"), I(1)), FCALL("w", I(1), recv="s"), ASSIGN(SELF("a"), I(2)))], [], ephemeral=["a"])], opts=opt(CRASH, max_concurrent_actions=1)))
    P.append(PROG("crash_roles3", [ASSIGN("a", NEWROLE("N1")), ASSIGN("b", NEWROLE("N2")), ASSIGN("x", I(0))], [ACTION("T", "serial", inc("x", 1, 2), inc("x", 1, 2))], roles=[
        ROLE("N1", [ACTION("Init", "atomic", ASSIGN(SELF("e"), I(0))), ACTION("S", "atomic", ASSIGN(SELF("e"), I(1)))], [], ephemeral=["e"]),
        ROLE("N2", [ACTION("Init", "atomic", ASSIGN(SELF("e"), I(0)), ASSIGN(SELF("d"), I(0))), ACTION("S", "serial", ASSIGN(SELF("e"), I(1)), ASSIGN(SELF("d"), I(1)))], [], durable=["d"])], opts=opt(CRASH, max_concurrent_actions=1)))
    return P


def bounded():
    """programs whose exploration is cut by max_actions or by limits of single actions"""
    P = []
    T = {"track": True}
    up = lambda v, k=1: ASSIGN(v, ADD(V(v) if isinstance(v, str) else v, I(k)))
    def add(name, init, actions, n, mc=None, aopts=None, dd=False, **kw):
        o = dict(OPT, deadlock_detection=dd, max_actions=n)
        if mc: o["max_concurrent_actions"] = mc
        P.append(PROG(name, init, actions, opts=o, aopts=aopts, extra=T, **kw))
    x, y = V("x"), V("y")
    one = [ACTION("A", "atomic", up("x"))]
    two = [ACTION("A", "atomic", up("x")), ACTION("Bb", "atomic", up("y", 2))]
    for n in (1, 2, 3, 5):
        for nm, kind, e in (("lt", "always", LT(x, I(n))), ("le", "always", LE(x, I(n))), ("ex", "exists", EQ(x, I(n))), ("ex1", "exists", EQ(x, I(n + 1)))):
            add("b_one_%s_%d" % (nm, n), [ASSIGN("x", I(0))], one, n, invs=[INV("P", kind, e)])
        add("b_two_%d" % n, xy(), two, n)
        add("b_two_sum_%d" % n, xy(), two, n, invs=[INV("P", "always", LT(ADD(x, y), I(2 * n)))])
        add("b_choice_%d" % n, [ASSIGN("x", I(0))], [ACTION("A", "atomic", any_("k", ints(1, 3), up("x", 1), ASSIGN("x", ADD(x, V("k")))))], n)
        add("b_list_%d" % n, [ASSIGN("l", LIST())], [ACTION("A", "atomic", ASSIGN("l", ADD(V("l"), LIST(I(1))))), ACTION("Bb", "atomic", REQUIRE(GT(CALL("len", V("l")), I(0))), ASSIGN("l", ADD(V("l"), LIST(I(2)))))], min(n, 4))
        # the states reached by going back are not explored anew
        add("b_back_%d" % n, [ASSIGN("x", I(0))], [ACTION("A", "atomic", up("x")), ACTION("R", "atomic", REQUIRE(GT(x, I(1))), ASSIGN("x", I(0)))], n)
        add("b_jump_%d" % n, [ASSIGN("x", I(0))], one + [ACTION("J", "atomic", REQUIRE(EQ(x, I(0))), ASSIGN("x", I(4)))], n)
        # deadlocks before, at and behind the bound
        for at in (1, 2, 3):
            add("b_dead_%d_%d" % (n, at), [ASSIGN("x", I(0))], [ACTION("A", "atomic", REQUIRE(LT(x, I(at))), up("x"))], n, dd=True)
        # what an action in flight does does not count
        add("b_serial_%d" % n, [ASSIGN("x", I(0))], [ACTION("A", "serial", up("x"), up("x"), up("x"))], n, 1)
        add("b_serial_two_%d" % n, xy(), [ACTION("A", "serial", up("x"), up("x"), up("x")), ACTION("Bb", "serial", REQUIRE(LT(y, I(2))), up("y"), up("y"))], min(n, 3), 2)
        add("b_par_%d" % n, xy(), [ACTION("A", "parallel", up("x"), up("y"))], min(n, 3), 1)
        add("b_serial_dead_%d" % n, [ASSIGN("x", I(0))], [ACTION("A", "serial", up("x"), REQUIRE(EQ(x, I(9))), up("x"))], n, 1, dd=True)
        cnt = [ROLE("N", [ACTION("Init", "atomic", ASSIGN(SELF("c"), I(0))), ACTION("A", "atomic", up(SELF("c"))), ACTION("Bb", "atomic", up(SELF("c"), 5))])]
        add("b_roles_%d" % n, [ASSIGN("n", NEWROLE("N")), ASSIGN("o", NEWROLE("N"))], [], min(n, 3), roles=cnt)
        for i, ao in enumerate(({"N.A": 1}, {"N#.A": 1}, {"N#0.A": 1}, {"N#1.A": 2, "N.Bb": 1}, {"N#.A": 1, "N#.Bb": 1}, {"N#0.A": 1, "N#.A": 2, "N.A": 3})):
            if n in (3, 5): add("b_rolelimit_%d_%d" % (i, n), [ASSIGN("n", NEWROLE("N")), ASSIGN("o", NEWROLE("N"))], [], min(n, 4), roles=cnt, aopts={a: {"max_actions": k} for a, k in ao.items()})
        for i, ao in enumerate(({"A": 1}, {"A": 2, "Bb": 1}, {"Bb": 2})):
            add("b_limit_%d_%d" % (i, n), xy(), two, n, aopts={a: {"max_actions": k} for a, k in ao.items()})
            add("b_limit_serial_%d_%d" % (i, n), xy(), [ACTION("A", "serial", up("x"), up("x")), ACTION("Bb", "serial", up("y"), up("y"))], min(n, 3), 2, aopts={a: {"max_actions": k} for a, k in ao.items()})
            add("b_limit_dead_%d_%d" % (i, n), xy(), two, n, aopts={a: {"max_actions": k} for a, k in ao.items()}, dd=True)
    add("b_limit_all", xy(), two, 100, aopts={"A": {"max_actions": 2}, "Bb": {"max_actions": 3}})
    add("b_limit_all_dead", xy(), two, 100, aopts={"A": {"max_actions": 2}, "Bb": {"max_actions": 3}}, dd=True)
    add("b_limit_all_ex", xy(), two, 100, aopts={"A": {"max_actions": 2}, "Bb": {"max_actions": 3}}, invs=[INV("P", "exists", AND(EQ(x, I(2)), EQ(y, I(6)))), INV("Q", "always", AND(LE(x, I(2)), LE(y, I(6))))])
    # names that are a part of other names
    nm = [ROLE(r, [ACTION("Init", "atomic", ASSIGN(SELF("c"), I(0)), ASSIGN(SELF("e"), I(0))), ACTION("Set", "atomic", up(SELF("c"))), ACTION("ReSet", "atomic", up(SELF("e")))]) for r in ("N", "Nn")]
    for i, ao in enumerate(({"N.Set": 1, "N.ReSet": 2}, {"N.Set": 2, "N.ReSet": 1}, {"N#.Set": 1, "N#0.ReSet": 2}, {"N.Set": 1, "N#0.ReSet": 1})):
        ao = dict(ao, **{"Nn.Set": 1, "Nn.ReSet": 1})
        add("b_names_%d" % i, [ASSIGN("n", NEWROLE("N")), ASSIGN("m", NEWROLE("Nn"))], [], 100, roles=nm, aopts={a: {"max_actions": k} for a, k in ao.items()})
    add("b_names_plain", xy(), [ACTION("Set", "atomic", up("x")), ACTION("ReSet", "atomic", up("y"))], 100, aopts={"Set": {"max_actions": 1}, "ReSet": {"max_actions": 3}})
    return P


def limited():
    """limits of the concurrent executions of single actions, on one instance, each of them and all"""
    P = []
    kinds = {"step": [ACTION("Init", "atomic", ASSIGN(SELF("c"), I(0))), ACTION("W", "serial", ASSIGN(SELF("c"), MOD(ADD(SELF("c"), I(1)), I(2))), PASS())],
             "once": [ACTION("Init", "atomic", ASSIGN(SELF("c"), I(0))), ACTION("W", "serial", REQUIRE(EQ(SELF("c"), I(0))), ASSIGN(SELF("c"), I(1)), ASSIGN(SELF("c"), I(2))), ACTION("Z", "serial", ASSIGN(SELF("c"), I(1)), ASSIGN(SELF("c"), I(0)))],
             "part": [ACTION("Init", "atomic", ASSIGN(SELF("c"), I(0))), ACTION("W", "serial", ASSIGN(SELF("c"), I(1)), PASS()), ACTION("ReW", "serial", ASSIGN(SELF("c"), I(0)), PASS())]}
    for i, ao in enumerate(({"N.W": 1}, {"N#.W": 1}, {"N#0.W": 1}, {"N#1.W": 1, "N.W": 2}, {"N#.W": 1, "N.W": 2}, {"N#.W": 2, "N#1.W": 1}, {"N#.W": 1, "N#0.W": 2})):
        for k, acts in kinds.items():
            for mc in (2, 3):
                if mc == 3 and k != "step": continue
                P.append(PROG("conc_%s_%d_%d" % (k, i, mc), [ASSIGN("n", NEWROLE("N")), ASSIGN("o", NEWROLE("N"))], [], roles=[ROLE("N", acts)],
                    opts=dict(OPT, max_concurrent_actions=mc), aopts={a: {"max_concurrent_actions": k2} for a, k2 in ao.items()}))
    return P


def channels():
    """messages: calls through a stub are delivered later, in any order, each once"""
    P = []
    A, F = ACTION, FUNC
    v0 = A("Init", "atomic", ASSIGN(SELF("v"), I(0)))
    one = [ASSIGN("c", CHAN(0)), ASSIGN("n", NEWROLE("Node")), ASSIGN("s", STUB(V("c"), V("n")))]
    two = [ASSIGN("c", CHAN(0)), ASSIGN("n", NEWROLE("Node")), ASSIGN("n2", NEWROLE("Node")), ASSIGN("s", STUB(V("c"), V("n"))), ASSIGN("s2", STUB(V("c"), V("n2")))]
    recv = F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), V("x")))
    log = F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), ADD(SELF("v"), LIST(V("x")))))
    l0 = A("Init", "atomic", ASSIGN(SELF("v"), LIST()))
    once = [ASSIGN("k", I(0))]
    def send(*b, fl="atomic", m=1, nm="Send"): return A(nm, fl, REQUIRE(LT(V("k"), I(m))), ASSIGN("k", ADD(V("k"), I(1))), *b)
    def S1(*a, **k): return FCALL("Recv", *a, recv="s", **k)
    def S2(*a, **k): return FCALL("Recv", *a, recv="s2", **k)
    P.append(PROG("ch_one", one + once, [send(S1(V("k")), m=2)], roles=[ROLE("Node", [v0], [recv])], opts=OPT))
    P.append(PROG("ch_order", one + once, [send(S1(I(1)), S1(I(2)), S1(I(3)))], roles=[ROLE("Node", [l0], [log])], opts=OPT))
    P.append(PROG("ch_same", one + once, [send(S1(I(1)), S1(I(1)), S1(I(1)))], roles=[ROLE("Node", [l0], [log])], opts=OPT))
    P.append(PROG("ch_two", two + once, [send(S1(I(1)), S2(I(2)), m=2)], roles=[ROLE("Node", [v0], [recv])], opts=OPT))
    P.append(PROG("ch_conc1", two + once, [send(S1(I(1)), S2(I(2)))], roles=[ROLE("Node", [v0], [F("Recv", "serial", ["x"], ASSIGN(SELF("v"), V("x")), ASSIGN(SELF("v"), I(0)))])], opts=opt(max_concurrent_actions=1), ))
    # the receiver works in several steps, with messages in between
    # (functions of roles are called through stubs from within roles only when not atomic)
    P.append(PROG("ch_serial", one + once, [send(S1(I(1)), S1(I(2))), A("W", "atomic", REQUIRE(EQ(V("k"), I(1))), ASSIGN("k", I(3)))], roles=[ROLE("Node", [v0], [F("Recv", "serial", ["x"], ASSIGN("t", SELF("v")), ASSIGN(SELF("v"), ADD(V("t"), V("x"))), ASSIGN(SELF("v"), ADD(V("t"), V("x"))))])], opts=OPT))
    # what a message carries is what it was when it was sent
    P.append(PROG("ch_value", one + [ASSIGN("x", I(0))], [A("Send", "atomic", REQUIRE(EQ(V("x"), I(0))), ASSIGN("x", I(1)), S1(V("x")), ASSIGN("x", I(2)), S1(V("x")))], roles=[ROLE("Node", [v0], [recv])], opts=OPT))
    # the receiver cannot take it now
    P.append(PROG("ch_blocked", one + once, [send(S1(I(1)), S1(I(2)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], REQUIRE(EQ(SELF("v"), SUB(V("x"), I(1)))), ASSIGN(SELF("v"), V("x")))])], opts=OPT))
    # messages cause messages
    P.append(PROG("ch_relay", one + once, [send(S1(I(0)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), V("x")), IF((LT(V("x"), I(2)), [FCALL("Recv", ADD(V("x"), I(1)), recv="s")])))])], opts=OPT))
    P.append(PROG("ch_pingpong", two + once, [send(S1(I(1)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), V("x")), IF((EQ(V("self"), V("n")), [FCALL("Recv", V("x"), recv="s2")])))])], opts=OPT))
    # a failed require after the call sends nothing
    P.append(PROG("ch_abort", one + [ASSIGN("x", I(0))], [A("Send", "atomic", REQUIRE(LT(V("x"), I(2))), inc("x"), S1(V("x")), REQUIRE(NE(V("x"), I(1)))), A("Up", "atomic", REQUIRE(EQ(V("x"), I(0))), ASSIGN("x", I(1)))], roles=[ROLE("Node", [v0], [recv])], opts=OPT))
    # nothing but a call: the step counts
    P.append(PROG("ch_only", one, [], roles=[ROLE("Node", [v0, A("Go", "atomic", REQUIRE(EQ(SELF("v"), I(0))), ASSIGN(SELF("v"), I(1)), FCALL("Recv", I(2), recv="s"))], [recv])], opts=OPT))
    P.append(PROG("ch_steps", two + once, [], roles=[ROLE("Node", [v0], [recv]), ROLE("Cli", [A("Init", "atomic", ASSIGN(SELF("d"), I(0))), A("Go", "serial", REQUIRE(EQ(SELF("d"), I(0))), ASSIGN(SELF("d"), I(1)), FCALL("Recv", I(1), recv="s"), FCALL("Recv", I(2), recv="s2"), ASSIGN(SELF("d"), I(2)))])], opts=OPT))
    P[-1]["init"].append(ASSIGN("cl", NEWROLE("Cli")))
    # the result of a call through a stub is not waited for
    P.append(PROG("ch_result", one + once + [ASSIGN("r", I(7))], [send(S1(I(1), var="r"))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), V("x")), RETURN(ADD(V("x"), I(1))))])], opts=OPT))
    P.append(PROG("ch_ret2", one + once, [send(S1(I(1)), S1(I(2)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], RETURN(V("x")))])], opts=OPT))
    # taking a message is a step, whatever else happens
    P.append(PROG("ch_noop", one + once, [send(S1(I(0)), S1(I(2)), S1(I(1)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], IF((LT(SELF("v"), V("x")), [ASSIGN(SELF("v"), V("x"))])))])], opts=OPT))
    P.append(PROG("ch_noret", one + once, [send(S1(I(0)), S1(I(1)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], IF((EQ(V("x"), I(0)), [RETURN()])), ASSIGN(SELF("v"), V("x")))])], opts=OPT))
    P.append(PROG("ch_noany", one + once, [send(S1(LIST()), S1(ints(1, 2)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], any_("z", V("x"), ASSIGN(SELF("v"), V("z"))))])], opts=OPT))
    # several channels
    P.append(PROG("ch_chans", [ASSIGN("c", CHAN(0)), ASSIGN("d", CHAN(1)), ASSIGN("n", NEWROLE("Node")), ASSIGN("s", STUB(V("c"), V("n"))), ASSIGN("s2", STUB(V("d"), V("n")))] + once, [send(S1(I(1)), S2(I(2)), S1(I(3)))], roles=[ROLE("Node", [l0], [log])], opts=OPT))
    # named and default arguments; references
    P.append(PROG("ch_args", one + once, [send(S1(kw=[["y", I(2)], ["x", I(1)]]), S1(I(3)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x", "y"], ASSIGN(SELF("v"), LIST(V("x"), V("y"))), defaults={"y": I(9)})])], opts=OPT))
    P.append(PROG("ch_role", two + once, [send(S1(V("n2")), S2(V("n")))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["o"], ASSIGN(ATTR(V("o"), "v"), ADD(ATTR(V("o"), "v"), I(1))), ASSIGN(SELF("p"), V("o")))])], opts=OPT))
    P.append(PROG("ch_list", one + once + [ASSIGN("l", LIST(I(0)))], [send(S1(V("l")), MUT("l", "append", I(1)))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], ASSIGN(SELF("v"), CALL("len", V("x"))))])], opts=OPT))
    P[-1]["opts"] = dict(OPT); P.pop()   # (aliases are not modelled)
    # choices at both ends
    P.append(PROG("ch_choice", two + once, [send(ONEOF(S1(I(1)), S2(I(2))))], roles=[ROLE("Node", [v0], [F("Recv", "atomic", ["x"], any_("z", ints(0, 1), ASSIGN(SELF("v"), ADD(V("z"), V("x")))))])], opts=OPT))
    P.append(PROG("ch_par", two + once, [], roles=[ROLE("Node", [v0], [recv]), ROLE("Cli", [A("Init", "atomic", ASSIGN(SELF("d"), I(0))), A("Go", "parallel", ATOMIC(REQUIRE(EQ(SELF("d"), I(0))), ASSIGN(SELF("d"), I(1)), FCALL("Recv", I(1), recv="s")), ATOMIC(REQUIRE(EQ(SELF("d"), I(1))), FCALL("Recv", I(2), recv="s2"), ASSIGN(SELF("d"), I(2))))])], opts=OPT))
    P[-1]["init"].append(ASSIGN("cl", NEWROLE("Cli")))
    P.append(PROG("ch_loop", two + once, [send(FOR("atomic", "t", ints(1, 2), S1(V("t")), S2(V("t"))))], roles=[ROLE("Node", [v0], [recv])], opts=OPT))
    P.append(PROG("ch_localstub", [ASSIGN("c", CHAN(0)), ASSIGN("ns", LIST()), MUT("ns", "append", NEWROLE("Node")), MUT("ns", "append", NEWROLE("Node"))] + once, [send(any_("o", V("ns"), ASSIGN("s", STUB(V("c"), V("o"))), S1(I(1))), m=2)], roles=[ROLE("Node", [v0], [recv])], opts=OPT))
    # a message is not lost when its receiver or its sender crashes
    P.append(PROG("ch_crash", one + once, [send(S1(I(1)), S1(I(2)), fl="atomic")], roles=[ROLE("Node", [A("Init", "atomic", ASSIGN(SELF("v"), I(0)), ASSIGN(SELF("w"), I(0)))], [F("Recv", "serial", ["x"], ASSIGN(SELF("w"), V("x")), ASSIGN(SELF("v"), V("x")))], ephemeral=["v"])], opts=CRASH))
    P.append(PROG("ch_crashcall", two + once, [], roles=[ROLE("Node", [v0], [recv]), ROLE("Cli", [A("Init", "atomic", ASSIGN(SELF("d"), I(0))), A("Go", "serial", REQUIRE(EQ(V("k"), I(0))), ASSIGN("k", I(1)), FCALL("Recv", I(1), recv="s"), FCALL("Recv", I(2), recv="s2"), ASSIGN(SELF("d"), I(1)))], ephemeral=["d"])], opts=CRASH))
    P[-1]["init"].append(ASSIGN("cl", NEWROLE("Cli")))
    # the limit on actions in flight does not keep messages from being delivered
    P.append(PROG("ch_limit", one + once, [], roles=[ROLE("Node", [v0], [F("Recv", "serial", ["x"], ASSIGN(SELF("v"), V("x")), ASSIGN(SELF("v"), ADD(SELF("v"), I(1))))]), ROLE("Cli", [A("Init", "atomic", ASSIGN(SELF("d"), I(0))), A("Go", "serial", REQUIRE(EQ(V("k"), I(0))), ASSIGN("k", I(1)), FCALL("Recv", I(1), recv="s"), FCALL("Recv", I(3), recv="s"), ASSIGN(SELF("d"), I(1)))])], opts=opt(max_concurrent_actions=1)))
    P[-1]["init"].append(ASSIGN("cl", NEWROLE("Cli")))
    return P


TOPICS = {"atomic": atomic, "serial": serial, "choice": choice, "parallel": parallel, "control": control, "roles": roles, "crash": crash}
MORE = {"channels": channels}


def topic(t): return (TOPICS.get(t) or MORE[t])()
