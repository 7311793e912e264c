#!/usr/bin/env python3
"""Measures the sensitivity of the checks: mutants.py OUT.jsonl FILE... applies every mutant of the given files of /repo
(relative names) in a scratch copy and, if it builds and the tests pass, runs the checks that concern the file until one
reports a violation. Env: J (parallel), ONLY (regular expression on descriptions), SAMPLE (1 in n), CHECKS (overrides)."""
import json, os, queue, re, shutil, subprocess, sys, tempfile, zlib
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin", GOROOT="/opt/veriftools/go1.23.12", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0")
MAP = [("internal/engine/memdb/memdb", "C13 C14 C02 C16"), ("internal/engine/memdb/indexer", "C13 C03 C04 C07 C08 C12 C11"), ("internal/engine/memdb/queue", "C03 C07 C08 C06 C05 C01 C16"),
       ("internal/engine/memdb/promise", "C01 C12 C10 C05 C16"), ("internal/engine/memdb/task", "C09 C10 C11 C16"), ("internal/engine/memdb/topic", "C11 C10 C04 C16"),
       ("internal/engine/mongodb/mongodb", "C26 C27 C32 C31 C30"), ("internal/engine/mongodb", "C26 C27"), ("internal/controller", "C24 C25 C19 C31 C02"), ("internal/metrics", "C25"),
       ("internal/middleware/pagination", "C23"), ("internal/middleware", "C18 C17 C25 C24"), ("internal/router", "C24 C17"), ("internal/nonce", "C28"), ("internal/config", "C30"), ("cmd/", "C30 C15"),
       ("client.go", "C20 C22 C21 C33 C19 C31"), ("context.go", "C21 C22"), ("transport.go", "C33"), ("ratus.go", "C19 C29 C13 C20 C18"), ("docs/", "C24")]
def sh(c, d, t=600):
    try: return subprocess.run(c, shell=True, cwd=d, env=ENV, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
def run(m, d):
    p = os.path.join(d, m["file"]); s = open(p, "rb").read()
    try:
        open(p, "wb").write(s[:m["from"]] + m["text"].encode() + s[m["to"]:])
        b = sh("go build ./... ", d)
        if b is None or b.returncode: return "build"
        for i in range(2):
            r = sh("go test -short -vet=off -count=1 -timeout 100s ./...", d)
            if r and r.returncode == 0: break
        else: return "tests"
        env = dict(os.environ, RATUS_REPO=d, VERIF_BUILD=d + "/.vbuild")
        checks = os.environ.get("CHECKS") or next((c for f, c in MAP if m["file"].startswith(f)), "")
        odd = ""
        for c in checks.split():
            r = subprocess.run([here + "/../check", c], env=env, capture_output=True, text=True)
            if r.returncode == 1: return "caught " + c
            if r.returncode: odd += " %s:%d %s" % (c, r.returncode, (r.stdout + r.stderr)[-200:])
        return "SURVIVED" + odd
    finally: open(p, "wb").write(s)
def main():
    out, files = sys.argv[1], sys.argv[2:]
    prog = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
    r = subprocess.run(["go", "build", "-o", prog + "/mutate", "main.go"], cwd=here + "/mutate", env=dict(ENV, GO111MODULE="off"))
    ms = [json.loads(l) for l in subprocess.run([prog + "/mutate"] + files, cwd="/repo", capture_output=True, text=True).stdout.splitlines()]
    shutil.rmtree(prog)
    done = set(json.loads(l)["what"] for l in open(out)) if os.path.exists(out) else set()
    only, n = os.environ.get("ONLY"), int(os.environ.get("SAMPLE", "1"))
    ms = [m for m in ms if m["what"] not in done and (not only or re.search(only, m["what"])) and zlib.crc32(m["what"].encode()) % n == 0]
    print(len(ms), "mutants", flush=True)
    dirs = queue.Queue()
    for i in range(int(os.environ.get("J", "2"))):
        d = "/tmp/mutants.%s.%d" % (os.path.basename(out), i) # the same every time, for the build cache
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo/.", d]) if not os.makedirs(d) else None
        dirs.put(d)
    def one(m):
        d = dirs.get()
        try: res = run(m, d)
        finally: dirs.put(d)
        with open(out, "a") as f: f.write(json.dumps({"what": m["what"], "result": res}) + "\n")
        if res.startswith("SURVIVED"): print(m["what"], res, flush=True)
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex: list(ex.map(one, ms))
    while not dirs.empty(): shutil.rmtree(dirs.get(), ignore_errors=True)
main()
