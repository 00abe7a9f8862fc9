"""Builds the fizzbee binary from /repo's current working tree (never writes in /repo or /opt/vp).

Mirrors what /opt/vp/build.sh does (module file with the generated proto package), but in
/verif/.work so that a check builds exactly the tree it judges.
"""
import hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))


class BuildError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.pop("GOROOT", None)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="")
    e.setdefault("HOME", "/root")
    return e


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def put(path, data):
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    with open(path, "wb") as f:
        f.write(data)


def prepare(work=None):
    """generated module in <work>/go; returns modfile path"""
    w = os.path.join(work or WORK, "go")
    os.makedirs(os.path.join(w, "bin"), exist_ok=True)
    os.makedirs(os.path.join(w, "fizz", "proto"), exist_ok=True)
    env = goenv()
    gomod = open(os.path.join(REPO, "go.mod")).read()
    modfile = os.path.join(w, "fizzbee.mod")
    put(modfile, (gomod + "\nrequire fizz v0.0.0\nreplace fizz => %s/fizz\n" % w).encode())
    put(os.path.join(w, "fizzbee.sum"), open(os.path.join(REPO, "go.sum"), "rb").read())
    import re
    m = re.search(r"google\.golang\.org/protobuf (v\S+)", gomod)
    put(os.path.join(w, "fizz", "go.mod"),
        ("module fizz\n\ngo 1.22.4\n\nrequire google.golang.org/protobuf %s\n" % m.group(1)).encode())
    run(["go", "build", "-modfile=" + modfile, "-o", w + "/bin/protoc-gen-go",
         "google.golang.org/protobuf/cmd/protoc-gen-go"], REPO, env)
    t = tempfile.mkdtemp()
    try:
        protos = [os.path.join(REPO, "proto", f) for f in sorted(os.listdir(REPO + "/proto")) if f.endswith(".proto")]
        run(["protoc", "-I", REPO + "/proto", "--plugin=" + w + "/bin/protoc-gen-go", "--go_out=" + t] + protos, REPO, env)
        src = os.path.join(t, "fizz", "proto")
        for f in os.listdir(src):
            put(os.path.join(w, "fizz", "proto", f), open(os.path.join(src, f), "rb").read())
        for f in os.listdir(os.path.join(w, "fizz", "proto")):
            if f.endswith(".go") and not os.path.exists(os.path.join(src, f)):
                os.unlink(os.path.join(w, "fizz", "proto", f))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return modfile


def build():
    """build the CLI; returns its path"""
    modfile = prepare()
    out = os.path.join(WORK, "go", "bin", "fizzbee")
    run(["go", "build", "-modfile=" + modfile, "-o", out, "."], REPO, goenv())
    return out


if __name__ == "__main__":
    print(build())
