#!/usr/bin/env python3
"""mutrun.py PROP...: the quick checks with seed 1, with TLC's answers kept in $VERIF_TLC_CACHE (they depend on the
specification and the programs only).  For mutation runs; the registered checks never use a cache."""
import gzip, hashlib, os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import engine, props, tla
CACHE = os.environ["VERIF_TLC_CACHE"]
os.makedirs(CACHE, exist_ok=True)
SPECHASH = hashlib.sha256(b"".join(open(os.path.join(tla.SPEC, f), "rb").read() for f in sorted(os.listdir(tla.SPEC)))).hexdigest()
real = tla.tlc


def cached(module, cfg, env=None, **kw):
    h = hashlib.sha256((SPECHASH + module + cfg).encode())
    for k, v in sorted((env or {}).items()):
        h.update(open(v, "rb").read() if os.path.exists(v) else str(v).encode())
    for k, v in sorted((kw.get("files") or {}).items()): h.update(v.encode())
    fn = os.path.join(CACHE, h.hexdigest()[:32] + ".gz")
    if os.path.exists(fn):
        rc, out = gzip.open(fn, "rt").read().split("\n", 1)
        return int(rc), out
    rc, out = real(module, cfg, env=env, **kw)
    with gzip.open(fn + ".%d" % os.getpid(), "wt", 1) as f: f.write("%d\n%s" % (rc, out))
    os.rename(fn + ".%d" % os.getpid(), fn)
    return rc, out


tla.tlc = cached
for p in sys.argv[1:]:
    t = time.time()
    rc = engine.run_check(p, props.CHECKS[p], "quick", 1)
    print("RC %s %d %.0f" % (p, rc, time.time() - t), flush=True)
    if rc: sys.exit(rc)
