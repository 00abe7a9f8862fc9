#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (one place to keep them in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, T = "modelchecker/processor.go", "modelchecker/thread.go"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", level="model_checking", technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                               "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                               "observe_at": list(observe) or ["state graph files written by the checker", "standard output and exit code"],
                               "hook_needed": None}))
    PROPS[-1]["_note"], PROPS[-1]["_level"], PROPS[-1]["_tech"] = note, level, technique


TECH = "explicit TLA+ specification (spec/Fizz.tla) explored exhaustively by TLC per program; the checker's state graph is compared with TLC's by modal simulation in both directions (traces of the real code checked against the specification and conversely)"
SIM = "Exhaustive over all schedules and choices of each program; programs are a hand-written corpus plus seeded random ones (bounded size)."
WHY = "The unit tests run fixed example models and compare counts or single outputs; they do not compare the set of explored behaviours with an independent definition of the language, for other programs or other schedules."

prop("P01", "Atomic actions are indivisible, and a failed require leaves no trace",
     "A block marked atomic runs from start to end as one transition: no other action, crash or delivery is ever interleaved, and no intermediate value is a state of the graph. When a require statement (or a concise choice without candidates) fails anywhere in it, that whole transition does not exist, including everything it did before. Every enabled action is explored from every reachable state.",
     ["programs", "schedules"], "all programs built from atomic actions (assignments, conditionals, loops, choices, require, helper functions), all reachable states", WHY,
     [T, P, "modelchecker/starlark.go"],
     [("statement execution until the next yield point", T + ": Execute, executeBlock, executeStatement"),
      ("enabled status of a step", P + ": Enable, propagateEnabled"), ("scheduling of every action at a yield point", P + ": YieldNode, scheduleAction")],
     [("Enabled", "whether the step executed an enabling statement", P)], note=SIM, technique=TECH)
prop("P02", "Serial blocks yield after every statement, up to the concurrency limit",
     "Between two statements of a serial block any other enabled action may run, any in-flight action may continue, and the state between the statements is a state of the graph; within one statement nothing interleaves. All interleavings of the in-flight actions are explored, and never more actions are in flight than the configured maximum. Local variables and program position of each in-flight action are preserved across the interleaving.",
     ["programs", "schedules", "configurations"], "all interleavings of all in-flight actions; all values of the concurrency limit", WHY,
     [T, P], [("end of statement and yield decision", T + ": executeEndOfStatement, executeEndOfBlock"), ("fork at a yield point", P + ": YieldNode, YieldFork, scheduleAction")],
     [("Threads / Current", "in-flight actions and the one that ran last", P)], note=SIM, technique=TECH)
prop("P03", "Nondeterministic choices branch into exactly their alternatives",
     "An any statement or a concise choice continues once for every element of its collection that satisfies its condition, and for no other; a oneof block runs exactly one of its statements, every one of them in some branch. The branches are independent: nothing that one branch does is visible in another. With no candidates, the block form is skipped and the concise form cancels the transition.",
     ["programs", "schedules"], "all programs with choices nested in any block kind, all combinations of choices", WHY,
     [T, P, "modelchecker/clone.go"], [("any statement and oneof fork", T + ": executeStatement, executeBlock"), ("copy of the state for a branch", P + ": Fork; modelchecker/clone.go: deepCloneStarlarkValue")],
     note=SIM, technique=TECH)
prop("P04", "Parallel blocks execute every statement exactly once, in every order",
     "A parallel block runs each of its statements exactly once, in every order that the interleaving semantics allows, with a yield point between them at which other actions may run; a parallel for loop visits each element exactly once in every order. The block ends only when all of them are done and execution then continues after the block.",
     ["programs", "schedules"], "all orders of the statements of (nested) parallel blocks and loops and all interleavings with other actions", WHY,
     [T, P], [("choice of the next statement of a parallel block", T + ": executeBlock"), ("end of a statement of a parallel block", T + ": executeEndOfBlockWithForks, executeEndOfStatement"), ("pending statements at a yield point", P + ": YieldFork")],
     [("Scope.skipstmts", "statements of the block already chosen", T)], note=SIM, technique=TECH)
prop("P05", "Branches, loops, functions and returns follow their sequential meaning",
     "if/elif/else runs exactly the first branch whose condition holds; for and while loops iterate exactly as their collection or condition dictates; break and continue affect the innermost loop only; a call runs the callee with its own local variables, arguments and defaults, and assigns its return value to the caller's variable; return leaves the callee at once. Loops and calls inside atomic code do not create yield points, and inside serial code only between statements.",
     ["programs", "inputs"], "all programs with nested control flow and helper functions, all argument values", WHY,
     [T], [("loops", T + ": executeForStatement, executeWhileStatement"), ("break, continue, return, call", T + ": executeStatement"), ("scopes", T + ": Scope, ExitScope")],
     note=SIM, technique=TECH)
prop("P06", "Role instances are independent and calls between them run on the callee",
     "Every role instance has its own fields, and its actions can run on every instance; a call to another instance runs the function on that instance's fields with the given arguments while the caller waits, yields inside the callee exactly as its block kind says, and delivers the return value to the caller. References to an instance (in variables, collections, parameters) always denote the same instance in every state.",
     ["programs", "schedules"], "all interleavings of the actions of all instances, including while a call is in progress", WHY,
     [T, P, "lib/starlark_role.go", "modelchecker/clone.go"], [("calls between roles", T + ": executeStatement, getDefinition"), ("actions of roles", P + ": scheduleRoleActions"), ("copying role references", "modelchecker/clone.go")],
     note=SIM, technique=TECH)
prop("P07", "Crashes abandon in-flight work and lose exactly the ephemeral fields",
     "With crashes enabled, at every yield point the in-flight action that just yielded may be abandoned, leaving the state as it is at that point; an instance that declares durable or ephemeral fields may crash: exactly its ephemeral fields return to their initial values, exactly the actions executing on it are abandoned, and everything else is unchanged. No crash happens inside an atomic block, none when crashes are disabled (globally or for the action).",
     ["programs", "schedules", "crash_points"], "all crash points of all schedules, all combinations of durable and ephemeral fields", WHY,
     [P, "modelchecker/durability.go"], [("crash of an action", P + ": crashProcess, crashThread, shouldThreadCrash"), ("crash of an instance", P + ": crashRoles, crashRole, ResetEphemeralVariables"), ("durability of fields", "modelchecker/durability.go")],
     note=SIM, technique=TECH)

exec(open(os.path.join(V, "tools", "mkdocs_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "mkdocs_more.py")) else None

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    claimed = [p for p in PROPS if p["id"] not in {x["property"] for x in NOT_APPLICABLE}]
    m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.path.insert(0, \".\"); from lib import build; build.build()'",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                     "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "technique": p["_tech"] or TECH,
                     "level": p["_level"], "level_note": p["_note"] or SIM} for p in claimed],
         "not_applicable": NOT_APPLICABLE}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        print("valid;", len(PROPS), "properties")
    except ImportError: print("jsonschema is not available: not validated")


main()
