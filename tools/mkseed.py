#!/usr/bin/env python3
"""mkseed.py FILE [ID]: plants the bugs FILE describes, after confirming them in a scratch copy.

FILE is Python and calls seed(id, property, pkg, edits, demo, needs, breaks); demo is the
Go test TestDemo of package <pkg>_test. Written to /verif/seeded/<id>/."""
import glob, json, os, shutil, subprocess, sys, tempfile

REPO = "/repo"
OUT = "/verif/seeded"
BASE = subprocess.run("git -C /repo log --format=%H --grep=^fix: --invert-grep | head -1", shell=True, capture_output=True, text=True).stdout.strip()
only = sys.argv[2:]

DEMO = """#!/bin/bash
# exit 0: behaves as it should
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
o=$(mktemp -d)
trap 'rm -rf "$o"' EXIT
echo '{"Replace":{"'"$PWD"'/%s/zz_demo_test.go":"'"$d"'/demo_test.go"}}' > "$o/ov.json"
go test -overlay "$o/ov.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%s
"""


def sh(cmd, cwd, t=400):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def demo(d, repo, n=1):
    for _ in range(n):
        r = sh("bash %s/demo.sh" % d, repo)
        if r.returncode:
            return r
    return r


def seed(id, prop, pkg, edits, code, needs, breaks):
    if only and id not in only:
        return
    w = tempfile.mkdtemp(prefix="seed.")
    try:
        repo = os.path.join(w, "repo")
        sh("cp -a %s %s" % (REPO, repo), "/")
        d = os.path.join(w, "d")
        os.mkdir(d)
        open(d + "/demo_test.go", "w").write(code)
        open(d + "/demo.sh", "w").write(DEMO % (pkg, pkg))
        os.chmod(d + "/demo.sh", 0o755)
        r = demo(d, repo, 3)
        if r.returncode:
            return print(id, "DEMO FAILS ON CLEAN", r.stdout[-3000:], r.stderr[-2000:])
        orig = False
        for f, a, b in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(a) != 1:
                return print(id, "EDIT MATCHES", s.count(a), f, a)
            open(p, "w").write(s.replace(a, b))
        r = sh("gofmt -l $(git diff --name-only)", repo)
        if r.stdout:
            print(id, "gofmt", r.stdout)
        diff = sh("git diff", repo).stdout
        old = {}
        for f in {e[0] for e in edits}:
            old[f] = sh("git show %s:%s" % (BASE, f), repo).stdout.split("\n")
            cur = None
        bad = []
        for line in diff.split("\n"):
            if line.startswith("--- a/"):
                cur = line[6:]
            elif line.startswith("-") and not line.startswith("---"):
                if line[1:] in old[cur] and line[1:].strip():
                    orig = True
                else:
                    bad.append(line)
        if not orig:
            return print(id, "NO ORIGINAL LINE", bad)
        r = sh("go build ./... && go vet ./transport ./lease ./federation ./naming ./serialization ./common >/dev/null 2>&1; . /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./...", repo)
        if r.returncode:
            return print(id, "TESTS FAIL", r.stdout[-2000:], r.stderr[-2000:])
        r = demo(d, repo)
        if r.returncode == 0:
            return print(id, "DEMO PASSES WITH BUG")
        why = [l for l in r.stdout.split("\n") if "demo_test.go" in l or "panic" in l or "FAIL" in l][:2]
        out = os.path.join(OUT, id)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        print(id, "ok", why, ("mine: %d" % len(bad)) if bad else "")
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
