#!/usr/bin/env python3
"""Planted bugs: make one from an edit of the source, and try the checks on them.

  seed.py verify ID...   builds the changed tree in a scratch copy, runs the stable tests, the demo on
                         both trees and the check of its property (VERIF_REPO/VERIF_WORK point at the copy)
  make(...)              used by authoring scripts: writes seeded/<id>/ from textual edits
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import build, fz

REPO = "/repo"
DEMO = '''#!/bin/bash
# %s
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=${FIZZBEE:-/opt/vp/go/bin/fizzbee}
run() { # spec pattern args...
  local s=$1 p=$2; shift 2
  mkdir -p "$T/$s"; cp "$D/$s.json" "$T/$s/"
  OUT=$(cd "$T/$s" && timeout 100 "$B" --test --output-dir "$T/$s/out" "$@" "$T/$s/$s.json" 2>&1)
  if ! grep -qE -- "$p" <<<"$OUT"; then echo "$s: expected $p"; tail -5 <<<"$OUT"; exit 1; fi
}
%s
exit 0
'''
PASS = "PASSED: Model checker completed successfully"


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def make(id, prop, edits, specs, needs, breaks, script=None, files=None):
    """edits: (file, old, new[, count]); specs: (program, expected pattern, args)"""
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seedmk")
    try:
        diff = ""
        for f in {e[0]: 1 for e in edits}:
            txt = open(os.path.join(REPO, f)).read()
            for e in edits:
                if e[0] != f: continue
                assert txt.count(e[1]) == (e[3] if len(e) > 3 else 1), (id, f, txt.count(e[1]), e[1])
                txt = txt.replace(e[1], e[2])
            for side, s in (("a", open(os.path.join(REPO, f)).read()), ("b", txt)):
                os.makedirs(os.path.dirname(os.path.join(t, side, f)), exist_ok=True)
                open(os.path.join(t, side, f), "w").write(s)
        rc, diff = sh("git diff --no-index --no-prefix a b", t)
        diff = diff.replace("diff --git a/", "diff --git a/")
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    lines = []
    for i, (p, pat, args) in enumerate(specs):
        n = "spec" if i == 0 else "spec%d" % (i + 1)
        json.dump(fz.to_fizz(p), open(os.path.join(d, n + ".json"), "w"), indent=1)
        lines.append("run %s '%s' %s" % (n, pat, " ".join("'%s'" % a for a in args)))
    for n, txt in (files or {}).items(): open(os.path.join(d, n), "w").write(txt)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (breaks.splitlines()[0], "\n".join(lines + ([script] if script else []))))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def verify(id, checks=True, keep=False, extra=()):
    d = os.path.join(V, "seeded", id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed_%s_" % id, dir="/tmp")
    r = {"id": id}
    try:
        sh(["cp", "-a", REPO, w + "/repo"])
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], w + "/repo")
        if rc: return dict(r, apply=o)
        env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_WORK=w + "/work")
        rc, o = sh([sys.executable, "-m", "lib.build"], V, env)
        if rc: return dict(r, build=o)
        ge = build.goenv()
        os.makedirs(w + "/runfiles"); os.symlink(w + "/repo", w + "/runfiles/_main")
        ge.update(RUNFILES_DIR=w + "/runfiles")
        mf = w + "/work/go/fizzbee.mod"
        rc, o = sh(["go", "build", "-modfile=" + mf, "./..."], w + "/repo", ge)
        if rc: return dict(r, build=o)
        rc, o = sh("go test -modfile=%s -json -vet=off -count=1 ./... > %s/test.jsonl" % (mf, w), w + "/repo", ge)
        sh(["python3", "/opt/vp/results.py", w + "/out.json", "gojson:" + w + "/test.jsonl"])
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = sorted(st - set(json.load(open(w + "/out.json"))["passed"]))
        r["tests"] = "ok" if not miss else miss
        rc, o = sh([d + "/demo.sh"], REPO, dict(os.environ, FIZZBEE=pristine()))
        r["demo_ok"] = rc == 0 or o
        rc, o = sh([d + "/demo.sh"], w + "/repo", dict(os.environ, FIZZBEE=w + "/work/go/bin/fizzbee"))
        r["demo_bug"] = (rc != 0, o.strip()[-150:])
        if checks:
            for c in [meta["property"]] + list(extra):
                rc, o = sh([sys.executable, V + "/check.py", c, "--tier", "quick", "--seed", "1"], V, env)
                r["check " + c] = {0: "MISSED", 1: "caught (%d)" % o.count("VIOLATION property=")}.get(rc, "rc %d " % rc + o[-500:])
                if rc == 1: r["first " + c] = o[:400]
        return r
    finally:
        if not keep: shutil.rmtree(w, ignore_errors=True)


_p = []
def pristine():
    if not _p: _p.append(build.build())
    return _p[0]


if __name__ == "__main__":
    if sys.argv[1] == "verify":
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
        ex = [a[1:] for a in sys.argv[2:] if a.startswith("-P")]
        for i in ids:
            r = verify(i, checks="-n" not in sys.argv, extra=ex)
            print(json.dumps(r, indent=1), flush=True)
