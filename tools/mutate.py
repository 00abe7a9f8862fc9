#!/usr/bin/env python3
"""Mutation run: random small changes of the source (tools/mutate/mutate.go), each built, tested with the stable tests
and, when those pass, given to the checks in turn until one raises a violation.

  mutate.py DIR [--n N] [--seed S] [--workers W] [--files a,b] [--lines file:from-to,...]
results go to DIR/results.jsonl; survivors are the ones to look at"""
import argparse, json, os, queue, random, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import build
ORDER = "P04 P03 P05 P06 P07 P18 P02 P01 P11 P08 P09 P10 P13 P15 P16 P17 P14 P12".split()
FILES = ["modelchecker/%s.go" % f for f in "processor thread invariants markovchain clone trace durability channel_message graph state_visitor symmetry_check".split()] + \
        ["lib/%s.go" % f for f in "queue stack randomqueue starlark_role starlark_types starlarkstruct symmetry permutations starlark_channels".split()] + ["main.go"]
WEIGHT = {"main.go": 0.4, "modelchecker/graph.go": 0.3, "lib/starlark_types.go": 0.4, "modelchecker/markovchain.go": 0.5, "lib/symmetry.go": 0.6}


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL); o, _ = p.communicate()
        return 124, o
    return p.returncode, o


class Worker(threading.Thread):
    def __init__(self, i, a, q, out, lock):
        super().__init__(daemon=True)
        self.d = os.path.join(a.dir, "w%d" % i); self.q, self.out, self.lock, self.a = q, out, lock, a
        self.repo = self.d + "/repo"
        shutil.rmtree(self.d, ignore_errors=True); os.makedirs(self.d)
        shutil.copytree("/repo", self.repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        os.makedirs(self.d + "/runfiles"); os.symlink(self.repo, self.d + "/runfiles/_main")
        os.makedirs(self.d + "/tmp")
        self.env = dict(os.environ, VERIF_REPO=self.repo, VERIF_WORK=self.d + "/work", VERIF_TLC_CACHE=os.path.join(a.dir, "cache"), TMPDIR=self.d + "/tmp")

    def run(self):
        while True:
            try: m = self.q.get_nowait()
            except queue.Empty: return
            r = self.one(m)
            with self.lock:
                self.out.write(json.dumps(r) + "\n"); self.out.flush()

    def one(self, m):
        f, k, line, op, text = m
        r = dict(file=f, k=k, line=line, op=op, text=text)
        t0 = time.time()
        try:
            subprocess.run(["/tmp/mutate", "/repo/" + f, str(k), self.repo + "/" + f], check=True)
            rc, o = sh([sys.executable, "-m", "lib.build"], V, self.env)
            if rc: return dict(r, res="build")
            ge = dict(build.goenv(), RUNFILES_DIR=self.d + "/runfiles", TMPDIR=self.d + "/tmp")
            mf = self.d + "/work/go/fizzbee.mod"
            rc, o = sh("go test -modfile=%s -json -vet=off -count=1 -timeout 60s ./... > %s/test.jsonl" % (mf, self.d), self.repo, ge, 120)
            sh(["python3", "/opt/vp/results.py", self.d + "/out.json", "gojson:" + self.d + "/test.jsonl"], V)
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            if st - set(json.load(open(self.d + "/out.json"))["passed"]): return dict(r, res="tests")
            for p in ORDER:
                rc, o = sh([sys.executable, "tools/mutrun.py", p], V, self.env, 600)
                if rc: return dict(r, res="caught" if rc == 1 else "rc%d" % rc, by=p, t=round(time.time() - t0), o=o[:300])
            return dict(r, res="SURVIVED", t=round(time.time() - t0))
        except Exception as e:
            return dict(r, res="error", o=str(e)[:300])
        finally:
            shutil.copy("/repo/" + f, self.repo + "/" + f)
            shutil.rmtree(self.d + "/tmp", ignore_errors=True); os.makedirs(self.d + "/tmp", exist_ok=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("dir"); ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4); ap.add_argument("--files"); ap.add_argument("--lines")
    a = ap.parse_args()
    os.makedirs(a.dir, exist_ok=True)
    subprocess.run(["go", "build", "-o", "/tmp/mutate", V + "/tools/mutate/mutate.go"], env=build.goenv(), check=True, cwd=V + "/tools/mutate")
    rnd = random.Random(a.seed)
    sites = []
    want = {}
    for x in (a.lines or "").split(","):
        if x: want.setdefault(x.split(":")[0], []).append([int(y) for y in x.split(":")[1].split("-")])
    for f in (a.files.split(",") if a.files else list(want) or FILES):
        for l in subprocess.run(["/tmp/mutate", "/repo/" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            k, line, op, text = l.split("\t", 3)
            if f in want and not any(lo <= int(line) <= hi for lo, hi in want[f]): continue
            if rnd.random() <= WEIGHT.get(f, 1): sites.append((f, int(k), int(line), op, text[:200]))
    rnd.shuffle(sites)
    done = set()
    rf = os.path.join(a.dir, "results.jsonl")
    if os.path.exists(rf): done = {(x["file"], x["k"]) for x in map(json.loads, open(rf))}
    sites = [s for s in sites if (s[0], s[1]) not in done][:a.n]
    q = queue.Queue()
    for s in sites: q.put(s)
    lock = threading.Lock()
    with open(rf, "a") as out:
        ws = [Worker(i, a, q, out, lock) for i in range(a.workers)]
        for w in ws: w.start()
        for w in ws: w.join()


main()
