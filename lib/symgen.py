"""Programs with symmetric values and symmetric roles: a corpus and seeded random ones.

The programs treat the values of a domain alike (nothing depends on which value comes first), as
symmetry reduction supposes."""
from .fz import *

OPT = {"deadlock_detection": False, "crash_on_yield": False, "max_concurrent_actions": 1}
def up(d, k, v): return ASSIGN(IDX(d if isinstance(d, list) else V(d), k), v)
def prog(name, init, actions, doms=(), opts=None, **kw): return PROG(name, init, actions, opts=dict(OPT, **(opts or {})), extra={"doms": list(doms)}, **kw)
def each(dom, d, v): return [ASSIGN(d, DICT()), FOR("atomic", "k", dom, up(d, V("k"), v))]
def val(d, k): return IDX(V(d), k)
def inc3(e): return MOD(ADD(e, I(1)), I(3))


def corpus():
    A, K = ACTION, V("KEYS")
    out = []
    leg = lambda n=3: DOM("KD", "k", "nominal", n, list_="KEYS", legacy=True)
    mat = lambda n=3: DOM("KD", "k", "nominal", n, list_="KEYS", mat=True)
    dyn = lambda n=3: DOM("IDS", "id", "nominal", n)
    ring = lambda n=4, **k: DOM("R", "n", "rotational", n, mat=True, **k)
    ts = lambda n=3, **k: DOM("TS", "ts", "ordinal", n, **k)
    tk = lambda n=4, **k: DOM("TK", "tk", "interval", n, **k)
    IC, IV, RV = DOP("IDS", "choices"), DOP("IDS", "values"), DOP("R", "values")
    for nm, d in (("legacy", leg), ("listed", mat)):
        out.append(prog("sy_%s_switch" % nm, each(K, "s", I(0)), [A("On", "atomic", CHOOSE("k", K), up("s", V("k"), I(1))),
            A("Off", "atomic", ANY("k", K, REQUIRE(EQ(val("s", V("k")), I(1))), up("s", V("k"), I(0))))], [d()]))
        out.append(prog("sy_%s_pair" % nm, [ASSIGN("a", N()), ASSIGN("b", N())], [A("A", "atomic", CHOOSE("a", K)), A("Bb", "atomic", CHOOSE("b", K)),
            A("Eq", "atomic", REQUIRE(EQ(V("a"), V("b"))), RETURN(V("a"))), A("Rst", "atomic", REQUIRE(NE(V("a"), V("b"))), ASSIGN("a", N()))], [d()]))
        out.append(prog("sy_%s_serial" % nm, each(K, "s", I(0)) + [ASSIGN("x", N())],
            [A("Mv", "serial", CHOOSE("k", K), ASSIGN("x", V("k")), up("s", V("k"), inc3(val("s", V("k")))), ASSIGN("x", N()))], [d(2)], {"max_concurrent_actions": 2, "crash_on_yield": True}))
    out.append(prog("sy_two", [ASSIGN("p", SET())], [A("Link", "atomic", ANY("a", K, ANY("b", V("LS"), MUT("p", "add", TUP(V("a"), V("b")))))),
        A("Cut", "atomic", ANY("q", V("p"), MUT("p", "discard", V("q"))))], [leg(2), DOM("LD", "m", "nominal", 2, list_="LS", mat=True)]))
    out.append(prog("sy_list", [ASSIGN("l", LIST())], [A("Push", "atomic", REQUIRE(LT(CALL("len", V("l")), I(2))), CHOOSE("k", K), MUT("l", "append", V("k"))),
        A("Pop", "atomic", REQUIRE(GT(CALL("len", V("l")), I(0))), MUT("l", "pop", I(0)))], [mat()]))
    out.append(prog("sy_nested", [ASSIGN("g", DICT())], [A("Add", "atomic", ANY("a", K, ANY("b", K, REQUIRE(NE(V("a"), V("b"))), up("g", V("a"), V("b"))))),
        A("Drop", "atomic", ANY("a", CALL("list", V("g")), REQUIRE(IN(val("g", V("a")), V("g"))), MUT("g", "pop", V("a"))))], [mat()]))
    out.append(prog("sy_put", [ASSIGN("c", DICT())], [A("Put", "atomic", ANY("i", IC, up("c", V("i"), inc3(METH(V("c"), "get", V("i"), I(0)))))),
        A("Del", "atomic", ANY("i", CALL("list", V("c")), MUT("c", "pop", V("i"))))], [dyn()]))
    out.append(prog("sy_fresh", [ASSIGN("c", SET()), ASSIGN("l", N())], [A("New", "atomic", ASSIGN("i", DOP("IDS", "fresh")), MUT("c", "add", V("i")), ASSIGN("l", V("i"))),
        A("Del", "atomic", ANY("i", V("c"), MUT("c", "discard", V("i"))))], [dyn()]))
    out.append(prog("sy_fresh2", [ASSIGN("a", N()), ASSIGN("b", N())], [A("New", "atomic", ASSIGN("a", DOP("IDS", "fresh")), ASSIGN("b", DOP("IDS", "fresh"))),
        A("Old", "atomic", ANY("i", IV, ASSIGN("a", V("i")))), A("Both", "atomic", REQUIRE(AND(EQ(V("a"), V("b")), NE(V("a"), N()))), ASSIGN("a", N()), ASSIGN("b", N()))], [dyn(2)]))
    out.append(prog("sy_local", [ASSIGN("c", SET())], [A("New", "serial", ASSIGN("i", DOP("IDS", "fresh")), ASSIGN("j", DOP("IDS", "fresh")), MUT("c", "add", V("i"))),
        A("Clr", "atomic", REQUIRE(GT(CALL("len", V("c")), I(1))), ASSIGN("c", SET()))], [dyn()], {"max_concurrent_actions": 2}))
    out.append(prog("sy_loop", [ASSIGN("c", SET()), ASSIGN("n", I(0))], [A("New", "atomic", ASSIGN("i", DOP("IDS", "fresh")), MUT("c", "add", V("i"))),
        A("Walk", "serial", REQUIRE(GT(CALL("len", V("c")), I(1))), FOR("parallel", "i", V("c"), ASSIGN("n", MOD(ADD(V("n"), I(1)), I(2))), MUT("c", "discard", V("i"))))], [dyn()], {"max_concurrent_actions": 1}))
    # (values that only local variables of callers, or the rest of a loop, hold)
    mk = FUNC("mk", "atomic", [], ASSIGN("k", DOP("IDS", "fresh")), RETURN(V("k")))
    out.append(prog("sy_call", [ASSIGN("s", SET())], [A("New", "atomic", REQUIRE(EQ(CALL("len", V("s")), I(0))), ASSIGN("i", DOP("IDS", "fresh")), FCALL("mk", var="j"), MUT("s", "add", V("i")), MUT("s", "add", V("j"))),
        A("Del", "atomic", ANY("i", V("s"), MUT("s", "discard", V("i"))))], [dyn()], funcs=[mk]))
    out.append(prog("sy_callarg", [ASSIGN("s", LIST())], [A("New", "atomic", ANY("i", IC, ASSIGN("h", LIST(V("i"))), FCALL("mk2", V("i"), var="j"), ASSIGN("s", LIST(IDX(V("h"), I(0)), V("j")))))], [dyn()],
        funcs=[FUNC("mk2", "atomic", ["x"], CHOOSE("y", IC), REQUIRE(NE(V("x"), V("y"))), RETURN(V("y")))]))
    out.append(prog("sy_walk", [ASSIGN("c", SET()), MUT("c", "add", DOP("IDS", "fresh")), MUT("c", "add", DOP("IDS", "fresh")), ASSIGN("w", N()), ASSIGN("n", N()), ASSIGN("on", I(0))],
        [A("Walk", "serial", REQUIRE(EQ(V("on"), I(0))), ASSIGN("on", I(1)), FOR("serial", "i", V("c"), ASSIGN("w", V("i")), ASSIGN("c", SET())), ASSIGN("on", I(2))),
         A("New", "atomic", REQUIRE(EQ(V("on"), I(1))), ASSIGN("n", DOP("IDS", "fresh")))], [dyn(4)], {"max_concurrent_actions": 2}))
    out.append(prog("sy_choose", [ASSIGN("a", DOP("IDS", "choose")), ASSIGN("b", DOP("IDS", "choose"))], [A("A", "atomic", CHOOSE("a", IC)), A("Bb", "atomic", CHOOSE("b", IC)),
        A("One", "atomic", REQUIRE(EQ(CALL("len", IV), I(1))), RETURN(DOP("IDS", "choose")))], [dyn()]))
    out.append(prog("sy_any", [ASSIGN("w", N())], [A("Op", "serial", CHOOSE("i", IC), ASSIGN("w", V("i")), REQUIRE(EQ(V("w"), V("i"))), ASSIGN("w", N()))], [dyn()], {"max_concurrent_actions": 2}))
    out.append(prog("sy_record", [ASSIGN("r", REC(a=N(), n=I(0)))], [A("S", "atomic", CHOOSE("i", IC), ASSIGN(ATTR(V("r"), "a"), V("i")), ASSIGN(ATTR(V("r"), "n"), CALL("len", IV))),
        A("Clr", "atomic", ASSIGN(ATTR(V("r"), "a"), N()))], [dyn()]))
    out.append(prog("sy_bag", [ASSIGN("b", BAG())], [A("Add", "atomic", REQUIRE(LT(CALL("len", V("b")), I(3))), ANY("k", K, MUT("b", "add", V("k")))), A("Clr", "atomic", ASSIGN("b", BAG()))], [mat(2)]))
    out.append(prog("sy_gmap", [ASSIGN("g", GMAP()), ASSIGN("s", GSET())], [A("Put", "atomic", ANY("k", K, up("g", LIST(V("k")), I(1)), MUT("s", "add", LIST(V("k"), V("k"))))),
        A("Clr", "atomic", REQUIRE(EQ(CALL("len", V("s")), I(2))), ASSIGN("g", GMAP()), ASSIGN("s", GSET()))], [mat()]))
    # order
    out.append(prog("sy_queue", [ASSIGN("ev", LIST())], [A("Rec", "atomic", ASSIGN("t", DOP("TS", "fresh")), ASSIGN("ev", ADD(V("ev"), LIST(V("t"))))),
        A("Proc", "atomic", REQUIRE(GT(CALL("len", V("ev")), I(0))), MUT("ev", "pop", I(0)))], [ts()]))
    out.append(prog("sy_order", [ASSIGN("a", N()), ASSIGN("b", N())], [A("A", "atomic", ASSIGN("a", DOP("TS", "fresh"))), A("Bb", "atomic", ASSIGN("b", DOP("TS", "fresh"))),
        A("Lt", "atomic", REQUIRE(AND(AND(NE(V("a"), N()), NE(V("b"), N())), LT(V("a"), V("b")))), ASSIGN("a", DOP("TS", "max"))),
        A("Ge", "atomic", REQUIRE(AND(AND(NE(V("a"), N()), NE(V("b"), N())), GT(V("a"), V("b")))), ASSIGN("b", DOP("TS", "min"))), A("Clr", "atomic", ASSIGN("a", N()))], [ts()]))
    for i, (lim, after, before) in enumerate(((4, 1, 1), (4, 0, 0), (4, 1, 0), (4, 0, 1), (3, 0, 0))):
        out.append(prog("sy_gap%d" % i, [ASSIGN("a", DOP("TS", "fresh")), ASSIGN("b", DOP("TS", "fresh")), ASSIGN("c", N())],
            [A("Ins", "atomic", CHOOSE("g", SEGS("TS", V("a") if after else None, V("b") if before else None)), ASSIGN("c", GAPFRESH("g"))),
             A("Mv", "atomic", REQUIRE(AND(NE(V("c"), N()), LT(V("a"), V("b")))), ASSIGN("a", V("c"))), A("Up", "atomic", REQUIRE(GT(V("a"), V("b"))), ASSIGN("b", V("a"))),
             A("Clr", "atomic", ASSIGN("c", N()))], [ts(lim)]))
    for i, (x, y) in enumerate(((None, "a"), ("a", None), ("b", "a"), ("a", "a"))):
        out.append(prog("sy_end%d" % i, [ASSIGN("a", DOP("TS", "fresh")), ASSIGN("b", N())], [A("Ins", "atomic", REQUIRE(NE(V("b"), N())) if x == "b" else PASS(), CHOOSE("g", SEGS("TS", V(x) if x else None, V(y) if y else None)), ASSIGN("b", GAPFRESH("g"))),
            A("New", "atomic", REQUIRE(EQ(V("b"), N())), ASSIGN("b", DOP("TS", "fresh"))), A("Sw", "atomic", REQUIRE(NE(V("b"), N())), ASSIGN("a", V("b")), ASSIGN("b", N()))], [ts(3)]))
    out.append(prog("sy_mirror", [ASSIGN("a", N()), ASSIGN("b", N())], [A("A", "atomic", CHOOSE("g", SEGS("TS")), ASSIGN("a", GAPFRESH("g"))), A("Bb", "atomic", CHOOSE("g", SEGS("TS")), ASSIGN("b", GAPFRESH("g"))),
        A("Clr", "atomic", ASSIGN("a", N()))], [ts(3, refl=True)]))
    # distances
    tick = [A("T1", "atomic", ASSIGN("a", ADD(V("a"), I(1)))), A("T2", "atomic", ASSIGN("b", ADD(V("b"), I(1))))]
    both = [ASSIGN("a", DOP("TK", "min")), ASSIGN("b", DOP("TK", "min"))]
    for i, d in enumerate((tk(4), tk(None, div=3), tk(3, div=5), tk(2, start=7), tk(None, div=2, start=-3))):
        out.append(prog("sy_ticks%d" % i, both, tick + [A("Back", "atomic", REQUIRE(GT(SUB(V("a"), V("b")), I(0))), ASSIGN("a", SUB(V("a"), I(1)))),
                                                        A("Gap", "atomic", REQUIRE(GE(V("b"), V("a"))), RETURN(SUB(V("b"), V("a"))))], [d]))
    for i, d in enumerate((tk(2, div=4), tk(3, div=4))):
        out.append(prog("sy_three%d" % i, [ASSIGN("a", DOP("TK", "min")), ASSIGN("b", V("a")), ASSIGN("c", V("a"))], [A(n.upper(), "atomic", ASSIGN(n, ADD(V(n), I(1)))) for n in "abc"], [d]))
    out.append(prog("sy_window", [ASSIGN("h", DOP("TK", "fresh")), ASSIGN("t", DOP("TK", "fresh"))], [A("H", "atomic", ASSIGN("h", ADD(V("h"), I(1)))),
        A("T", "atomic", REQUIRE(LT(V("t"), V("h"))), ASSIGN("t", ADD(V("t"), I(1))))], [tk(None, div=3)]))
    out.append(prog("sy_log", [ASSIGN("l", SET())], [A("App", "atomic", ASSIGN("x", DOP("TK", "fresh")), MUT("l", "add", V("x"))), A("Drop", "atomic", ANY("x", V("l"), MUT("l", "discard", V("x")))),
        A("Mx", "atomic", REQUIRE(GT(CALL("len", V("l")), I(0))), RETURN(SUB(DOP("TK", "max"), DOP("TK", "min"))))], [tk(3, div=4)]))
    out.append(dict(prog("sy_swing", both, [A("Mv", "atomic", ANY("d", LIST(I(-1), I(1)), ASSIGN("a", ADD(V("a"), V("d"))))), A("Mw", "atomic", ANY("d", LIST(I(-1), I(1)), ASSIGN("b", ADD(V("b"), V("d")))))],
        [tk(3, div=4, refl=True)]), blind=True))
    # rings
    on = A("On", "atomic", ANY("k", RV, MUT("s", "add", V("k"))))
    out.append(prog("sy_ring", each(RV, "s", I(0)), [A("On", "atomic", ANY("k", RV, up("s", V("k"), I(1)))),
        A("Nx", "atomic", ANY("k", RV, REQUIRE(EQ(val("s", V("k")), I(1))), up("s", V("k"), I(0)), up("s", ADD(V("k"), I(1)), I(1))))], [ring()]))
    for i, d in enumerate((ring(5), ring(5, refl=True), ring(6, refl=True), ring(2))):
        nx = [ANY("k", V("s"), MUT("s", "discard", V("k")), MUT("s", "add", ADD(V("k"), I(1)))) if not d["refl"] else
              ANY("k", V("s"), ANY("e", LIST(I(1), I(-1)), MUT("s", "discard", V("k")), MUT("s", "add", ADD(V("k"), V("e")))))]
        out.append(dict(prog("sy_spin%d" % i, [ASSIGN("s", SET())], [on, A("Nx", "atomic", *nx)], [d]), blind=d["refl"]))
    out.append(prog("sy_dist", [ASSIGN("a", N()), ASSIGN("b", N())], [A("A", "atomic", CHOOSE("a", RV)), A("Bb", "atomic", CHOOSE("b", RV)),
        A("D", "atomic", REQUIRE(AND(NE(V("a"), N()), NE(V("b"), N()))), RETURN(SUB(V("a"), V("b")))), A("Bk", "atomic", REQUIRE(NE(V("a"), N())), ASSIGN("a", SUB(V("a"), I(2))))], [ring()]))
    out.append(prog("sy_token", [ASSIGN("p", N()), ASSIGN("q", N())], [A("Put", "atomic", ASSIGN("p", N()), CHOOSE("q", RV)), A("Pass", "serial", REQUIRE(NE(V("q"), N())), ASSIGN("l", V("q")), ASSIGN("p", V("l")), ASSIGN("q", ADD(V("l"), I(1))))],
                    [ring(3)], {"max_concurrent_actions": 2, "crash_on_yield": True}))
    # roles
    def node(*acts, init=(("v", I(0)),), **kw):
        return ROLE("Node", [ACTION("Init", "atomic", *[ASSIGN(SELF(x), e) for x, e in init])] + list(acts), symmetric=True, **kw)
    def ns(n, r="Node", v="ns", how="bag"):
        return [ASSIGN(v, BAG() if how == "bag" else SET())] + [MUT(v, "add", NEWROLE(r)) for _ in range(n)]
    upn = A("Up", "atomic", REQUIRE(LT(SELF("v"), I(2))), ASSIGN(SELF("v"), ADD(SELF("v"), I(1))))
    out.append(prog("sy_roles", ns(3), [A("Sum", "atomic", ANY("n", V("ns"), REQUIRE(EQ(ATTR(V("n"), "v"), I(1))), RETURN(I(1))))], roles=[node(upn)]))
    out.append(prog("sy_roleset", ns(3, how="set"), [A("Rst", "atomic", ANY("n", V("ns"), REQUIRE(EQ(ATTR(V("n"), "v"), I(2))), ASSIGN(ATTR(V("n"), "v"), I(0))))], roles=[node(upn)]))
    out.append(prog("sy_roleserial", ns(2) + [ASSIGN("x", I(0))], [], roles=[node(A("Up", "serial", REQUIRE(LT(SELF("v"), I(2))), ASSIGN(SELF("v"), ADD(SELF("v"), I(1))), ASSIGN("x", SELF("v"))), ephemeral=["v"])],
                    opts={"max_concurrent_actions": 2, "crash_on_yield": True}))
    out.append(prog("sy_leader", ns(3) + [ASSIGN("ld", N())], [A("Elect", "atomic", CHOOSE("ld", V("ns"))), A("Down", "atomic", REQUIRE(NE(V("ld"), N())), ASSIGN(ATTR(V("ld"), "v"), I(1)), ASSIGN("ld", N()))], roles=[node()]))
    out.append(prog("sy_peer", ns(2), [A("Link", "atomic", ANY("a", V("ns"), ANY("b", V("ns"), ASSIGN(ATTR(V("a"), "v"), V("b")))))], roles=[node(A("Cut", "atomic", REQUIRE(NE(SELF("v"), N())), ASSIGN(SELF("v"), N())), init=(("v", N()),))]))
    out.append(prog("sy_rolecall", ns(2), [],
                    roles=[node(A("Go", "serial", CHOOSE("n", V("ns")), FCALL("add", I(1), recv="n", var="y"), ASSIGN(ATTR(V("n"), "v"), I(0))), init=(("v", I(0)),), funcs=[FUNC("add", "serial", ["d"], ASSIGN(SELF("v"), MOD(ADD(SELF("v"), V("d")), I(3))), RETURN(SELF("v")))])], opts={"max_concurrent_actions": 2}))
    out.append(prog("sy_mixed", ns(2) + each(K, "own", N()), [], roles=[node(A("Take", "atomic", ANY("k", K, REQUIRE(EQ(val("own", V("k")), N())), up("own", V("k"), V("self")))),
        A("Give", "atomic", ANY("k", K, REQUIRE(EQ(val("own", V("k")), V("self"))), up("own", V("k"), N()))))], doms=[mat(2)]))
    out.append(prog("sy_keyed", ns(2), [], roles=[node(A("Take", "atomic", ANY("i", IC, ASSIGN(SELF("v"), V("i")))), A("Drop", "atomic", ASSIGN(SELF("v"), N())), init=(("v", N()),))], doms=[dyn()]))
    out.append(prog("sy_tworoles", ns(2) + ns(2, "Disk", "ds"), [], roles=[node(upn), ROLE("Disk", [A("Init", "atomic", ASSIGN(SELF("w"), N())), A("Own", "atomic", CHOOSE("n", V("ns")), ASSIGN(SELF("w"), V("n")))], symmetric=True)]))
    out.append(prog("sy_plainrole", ns(2) + [ASSIGN("c", NEWROLE("Ctl"))], [], roles=[node(upn), ROLE("Ctl", [A("Init", "atomic", ASSIGN(SELF("t"), N())), A("Pick", "atomic", CHOOSE("n", V("ns")), ASSIGN(SELF("t"), V("n"))),
        A("Push", "atomic", REQUIRE(NE(SELF("t"), N())), ASSIGN(ATTR(SELF("t"), "v"), I(0)))])]))
    out.append(prog("sy_roleeph", ns(2) + [ASSIGN("g", I(0))], [A("Tick", "atomic", ASSIGN("g", SUB(I(1), V("g"))))], roles=[node(A("Set", "atomic", ASSIGN(SELF("v"), V("g"))), init=(("v", I(0)), ("w", I(1))), durable=["w"])],
                    opts={"crash_on_yield": True}))
    out.append(prog("sy_ret", ns(2), [], roles=[node(A("Get", "atomic", RETURN(SELF("v"))), upn)]))
    out.append(prog("sy_lim", ns(2), [], roles=[node(A("Up", "serial", ASSIGN(SELF("v"), I(1)), ASSIGN(SELF("v"), I(0))))], opts={"max_concurrent_actions": 2}, aopts={"Node#.Up": {"max_concurrent_actions": 1}}))
    for p in out:
        p.setdefault("blind", False)
    return out


def asserted():
    """programs with assertions that treat the values alike"""
    out = []
    by = {p["name"]: p for p in corpus()}
    def add(base, *invs, **opts):
        p = by[base]
        out.append(dict(p, name="%s_a%d" % (base, len(out)), invs=[INV("I%d" % i, k, e, params=["before", "after"] if k == "transition" else None) for i, (k, e) in enumerate(invs)], opts=dict(p["opts"], **opts)))
    cnt = lambda d, v: CALL("len", COMP(V("k"), "k", V(d), EQ(IDX(V(d), V("k")), v)))
    for b in ("sy_legacy_switch", "sy_listed_switch"):
        add(b, ("always", LE(cnt("s", I(1)), I(2)))); add(b, ("exists", EQ(cnt("s", I(1)), I(3)))); add(b, ("exists", EQ(cnt("s", I(1)), I(4)))); add(b, ("always", LE(cnt("s", I(1)), I(3))))
    add("sy_listed_pair", ("exists", AND(EQ(V("a"), V("b")), NE(V("a"), N())))); add("sy_listed_pair", ("always", OR(EQ(V("a"), N()), NE(V("a"), V("b")))))
    add("sy_nested", ("exists", EQ(CALL("len", V("g")), I(3)))); add("sy_nested", ("always", LT(CALL("len", V("g")), I(3))))
    add("sy_put", ("always", LT(CALL("len", V("c")), I(3)))); add("sy_put", ("exists", AND(EQ(CALL("len", V("c")), I(3)), EQ(cnt("c", I(2)), I(3))))); add("sy_put", ("exists", EQ(CALL("len", V("c")), I(4))))
    add("sy_fresh", ("always", OR(EQ(V("l"), N()), IN(V("l"), V("c"))))); add("sy_fresh2", ("exists", AND(NE(V("a"), N()), EQ(V("a"), V("b"))))); add("sy_fresh2", ("always", LE(CALL("len", DOP("IDS", "values")), I(1))))
    add("sy_fresh", deadlock_detection=True); add("sy_fresh2", deadlock_detection=True)
    add("sy_queue", ("always", LT(CALL("len", V("ev")), I(3)))); add("sy_order", ("exists", AND(AND(NE(V("a"), N()), NE(V("b"), N())), LT(V("b"), V("a")))))
    add("sy_gap0", ("always", OR(EQ(V("c"), N()), AND(LE(V("a"), V("c")), LE(V("c"), V("b"))))))
    add("sy_gap1", ("exists", AND(NE(V("c"), N()), LT(V("c"), V("a"))))); add("sy_gap1", ("always", OR(EQ(V("c"), N()), NE(V("c"), V("b")))))
    add("sy_ticks0", ("always", LE(SUB(V("a"), V("b")), I(2)))); add("sy_ticks0", ("always", LE(SUB(V("a"), V("b")), I(3)))); add("sy_ticks1", ("exists", EQ(SUB(V("b"), V("a")), I(3)))); add("sy_ticks2", ("exists", EQ(SUB(V("b"), V("a")), I(5)))); add("sy_ticks2", ("exists", EQ(SUB(V("b"), V("a")), I(6))))
    add("sy_ticks0", ("transition", LE(SUB(ATTR(V("after"), "a"), ATTR(V("before"), "b")), I(1))))
    add("sy_window", deadlock_detection=True); add("sy_log", ("always", LT(CALL("len", V("l")), I(3)))); add("sy_log", deadlock_detection=True)
    add("sy_ring", ("exists", EQ(cnt("s", I(1)), I(4)))); add("sy_ring", ("always", NE(cnt("s", I(1)), I(2))))
    add("sy_spin0", ("always", LT(CALL("len", V("s")), I(4)))); add("sy_spin2", ("exists", EQ(CALL("len", V("s")), I(6)))); add("sy_dist", ("always", OR(OR(EQ(V("a"), N()), EQ(V("b"), N())), LT(SUB(V("a"), V("b")), I(3)))))
    vs = lambda n: CALL("len", COMP(V("n"), "n", V("ns"), EQ(ATTR(V("n"), "v"), I(n))))
    add("sy_roles", ("always", LT(vs(2), I(3)))); add("sy_roles", ("exists", EQ(vs(2), I(3)))); add("sy_roles", ("exists", AND(EQ(vs(2), I(2)), EQ(vs(1), I(2))))); add("sy_roles", deadlock_detection=True)
    add("sy_leader", ("always", LT(vs(1), I(2)))); add("sy_leader", ("exists", AND(NE(V("ld"), N()), EQ(vs(1), I(3))))); add("sy_roleserial", ("always", LE(V("x"), I(1)))); add("sy_roleserial", ("exists", EQ(vs(2), I(2))))
    add("sy_mixed", ("exists", EQ(cnt("own", N()), I(0)))); add("sy_mixed", ("always", GE(cnt("own", N()), I(1))))
    return out


def random_prog(rnd, name):
    """a random program over one or two domains and, sometimes, symmetric roles"""
    A = ACTION
    kind = rnd.choice(("listed", "listed", "dyn", "dyn", "ring", "ordinal", "interval", "roles", "roles", "rolesdyn"))
    doms, init, acts, roles = [], [], [], []
    IC = DOP("IDS", "choices")
    opts = {}
    serial = kind in ("listed", "ring", "roles", "dyn") and rnd.random() < .35
    if serial: opts["max_concurrent_actions"] = rnd.choice((1, 2)); opts["crash_on_yield"] = rnd.random() < .4
    src, elem = None, None
    if kind == "listed":
        doms = [DOM("KD", "k", "nominal", rnd.choice((2, 3)), list_="KEYS", **({"legacy": True} if rnd.random() < .5 else {"mat": True}))]; src = V("KEYS")
    elif kind == "ring": doms = [DOM("R", "n", "rotational", rnd.choice((2, 3, 4)), mat=True)]; src = DOP("R", "values")
    elif kind == "dyn" or kind == "rolesdyn": doms = [DOM("IDS", "id", "nominal", rnd.choice((2, 3)))]; src = DOP("IDS", "choices")
    elif kind == "ordinal": doms = [DOM("TS", "ts", "ordinal", rnd.choice((2, 3)))]
    elif kind == "interval": doms = [DOM("TK", "tk", "interval", rnd.choice((2, 2, 3)), div=rnd.choice((2, 3, 4)), start=rnd.choice((0, 0, 5)))]
    svars = []                              # variables that hold a value or None
    for v in ("a", "b", "e")[:rnd.choice((1, 2, 2, 3) if kind in ("ordinal", "interval") else (1, 2, 2))]: init.append(ASSIGN(v, N())); svars.append(v)
    hasset = rnd.random() < .6
    if hasset: init.append(ASSIGN("s", SET()))
    hasdict = src is not None and kind in ("listed", "ring") and rnd.random() < .5
    if hasdict: init += each(src, "d", I(0))
    cnt = rnd.random() < .4
    if cnt: init.append(ASSIGN("c", I(0)))
    if kind.startswith("roles"):
        n = rnd.choice((2, 2, 3))
        init = [ASSIGN("ns", BAG() if rnd.random() < .5 else SET())] + [MUT("ns", "add", NEWROLE("Node")) for _ in range(n)] + init
        rsrc = V("ns")
        if src is None: src = rsrc
    some = lambda: rnd.choice([V(v) for v in svars])

    def store(e):
        """statements that keep the value e"""
        w = rnd.random()
        if hasset and w < .4: return MUT("s", rnd.choice(("add", "add", "discard")), e)
        if hasdict and w < .7: return up("d", e, MOD(ADD(val("d", e), I(1)), I(2)))
        return ASSIGN(rnd.choice(svars), e)

    def guard(e=None):
        ops = [EQ(some(), N()), NE(some(), N()), EQ(V(svars[0]), V(svars[-1])), NE(V(svars[0]), V(svars[-1]))]
        if hasset: ops += [LT(CALL("len", V("s")), I(2)), GT(CALL("len", V("s")), I(0))]
        if cnt: ops += [EQ(V("c"), I(0)), EQ(V("c"), I(1))]
        if e is not None:
            ops += [EQ(e, some()), NE(e, some())] * 2
            if hasset: ops += [IN(e, V("s")), NOT(IN(e, V("s")))]
            if hasdict: ops += [EQ(val("d", e), I(0)), EQ(val("d", e), I(1))]
        return REQUIRE(rnd.choice(ops))

    calls = []

    def action(nm):
        b = []
        if rnd.random() < .5: b.append(guard())
        if kind in ("ordinal", "interval"):
            D = doms[0]["var"]
            both = AND(NE(V(svars[0]), N()), NE(V(svars[-1]), N()))
            w = rnd.random()
            if w < .35: b += [ASSIGN("t", DOP(D, "fresh")), store(V("t"))]
            elif w < .5 and kind == "interval": v = rnd.choice(svars); b += [REQUIRE(NE(V(v), N())), ASSIGN(v, BIN(rnd.choice("+-"), V(v), I(1)))]
            elif w < .6 and kind == "ordinal":
                lo, hi = (rnd.choice(svars) if rnd.random() < .5 else None for _ in range(2))
                b += [REQUIRE(NE(V(v), N())) for v in (lo, hi) if v]
                b += [CHOOSE("g", SEGS(D, V(lo) if lo else None, V(hi) if hi else None)), ASSIGN(rnd.choice(svars), GAPFRESH("g"))]
            elif w < .7: b += [ANY("t", DOP(D, "values"), *([guard(V("t"))] if rnd.random() < .6 else []), store(V("t")))]
            elif w < .8: b += [REQUIRE(both), REQUIRE(BIN(rnd.choice(("<", ">", "<=", ">=")), V(svars[0]), V(svars[-1]))), rnd.choice((ASSIGN(svars[0], N()), ASSIGN(svars[-1], V(svars[0])), RETURN(I(1))))]
            elif w < .9 and kind == "interval": b += [REQUIRE(both), RETURN(SUB(V(svars[0]), V(svars[-1])))]
            elif hasset: b += [ANY("t", V("s"), MUT("s", "discard", V("t")))]
            else: b += [ASSIGN(rnd.choice(svars), N())]
            return A(nm, "atomic", *b)
        it = src
        if hasset and rnd.random() < .25: it = V("s")
        x = "k"
        body = [guard(V(x))] if rnd.random() < .6 else []
        st = [store(V(x)) for _ in range(rnd.choice((1, 1, 2)))]
        if kind == "ring" and rnd.random() < .5: st.append(ASSIGN(rnd.choice(svars), BIN(rnd.choice("+-"), V(x), I(rnd.choice((1, 2))))))
        if cnt and rnd.random() < .5: st.append(ASSIGN("c", SUB(I(1), V("c"))))
        w = rnd.random()
        fl = "serial" if serial and rnd.random() < .6 else "atomic"
        if w < .15: b += [rnd.choice([ASSIGN(v, N()) for v in svars] + ([ASSIGN("s", SET())] if hasset else []))]
        elif w < .3: b += [REQUIRE(NE(some(), N()))]; b += [RETURN(some())]
        elif kind in ("dyn", "rolesdyn") and w < .42: b += [ASSIGN(x, DOP("IDS", "fresh"))] + st
        elif kind in ("dyn", "rolesdyn") and w < .5 and fl == "atomic": b += [CHOOSE(x, it), FCALL(rnd.choice(("mk", "pick")), var="j"), guard(V(x)), store(V("j"))] + st; calls.append(1)
        elif hasset and w < .6 and serial:      # (an ordered loop over two values of a set would depend on which comes first)
            how = rnd.choice(("serial", "parallel", "parallel", "atomic"))
            if how != "parallel": b.append(REQUIRE(EQ(CALL("len", V("s")), I(1))))
            b += [FOR(how, x, V("s"), *(st + ([ASSIGN("s", SET())] if rnd.random() < .4 else [])))]; fl = "serial"
        elif w < .65: b += [CHOOSE(x, it)] + body + st
        else: b += [ANY(x, it, *(body + st))]
        return A(nm, fl, *b)

    acts = [action("A%d" % i) for i in range(rnd.choice((1, 2, 2, 3)))]
    if kind.startswith("roles"):
        f = rnd.choice((I(0), N()))
        ra = [A("Init", "atomic", ASSIGN(SELF("v"), f), ASSIGN(SELF("w"), I(0)))]
        for i in range(rnd.choice((1, 2))):
            fl = "serial" if serial and rnd.random() < .6 else "atomic"
            b = [guard(V("self"))] if rnd.random() < .4 and kind == "roles" else []
            w = rnd.random()
            if f == N():
                if w < .3: b += [ASSIGN(SELF("v"), N())]
                elif w < .6: b += [CHOOSE("o", src if kind == "rolesdyn" else V("ns")), ASSIGN(SELF("v"), V("o"))]
                else: b += [REQUIRE(NE(SELF("v"), N())), ASSIGN(rnd.choice(svars) if kind == "roles" or rnd.random() < .9 else svars[0], SELF("v"))]
            else: b += [ASSIGN(SELF("v"), MOD(ADD(SELF("v"), I(1)), I(2)))]
            if rnd.random() < .4: b += [ASSIGN(SELF("w"), SUB(I(1), SELF("w")))]
            if rnd.random() < .3 and kind == "roles": b += [store(V("self"))]
            if rnd.random() < .25: b += [RETURN(SELF("w"))]
            ra.append(A("R%d" % i, fl, *b))
        eph = {} if rnd.random() < .7 else {"ephemeral": ["w"]}
        if eph: opts["crash_on_yield"] = True
        roles = [ROLE("Node", ra, symmetric=True, **eph)]
    funcs = [FUNC("mk", "atomic", [], ASSIGN("z", DOP("IDS", "fresh")), RETURN(V("z"))), FUNC("pick", "atomic", [], CHOOSE("z", IC), RETURN(V("z")))] if calls else []
    p = prog(name, init, acts, doms, opts, roles=roles, funcs=funcs)
    p["blind"] = False
    if rnd.random() < .5:
        ps = [LE(CALL("len", COMP(V("z"), "z", LIST(*[V(v) for v in svars]), NE(V("z"), N()))), I(len(svars) - 1)), OR(EQ(V(svars[0]), N()), NE(V(svars[0]), V(svars[-1])) if len(svars) > 1 else EQ(V(svars[0]), V(svars[0])))]
        if hasset: ps += [LT(CALL("len", V("s")), I(2)), OR(EQ(V(svars[0]), N()), IN(V(svars[0]), V("s")))]
        if hasdict: ps += [EQ(CALL("len", COMP(V("z"), "z", V("d"), EQ(val("d", V("z")), I(1)))), I(0))]
        for i in range(rnd.choice((1, 2))):
            e = rnd.choice(ps)
            k = rnd.choice(("always", "exists"))
            p["invs"].append(INV("I%d" % i, k, e if rnd.random() < .6 else NOT(e)))
        p["opts"]["deadlock_detection"] = rnd.random() < .4
    return p
