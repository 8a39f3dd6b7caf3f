#!/usr/bin/env python3
"""mk.py [id...]: writes seeded/<id> for the bugs listed in bugs/*.py.

Each bug is confirmed in a scratch copy of /repo: it must build, pass the
stable tests, and its demonstration must pass without and fail with it.
"""
import importlib.util, json, os, pathlib, shutil, subprocess, sys, tempfile

here = pathlib.Path(__file__).resolve().parent
root = here.parent.parent
LIB = (here / "lib.go").read_text()
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = """#!/bin/bash
# Runs main.go of this folder as a program of the module in the current folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<END
{"Replace": {
 "$repo/query/zzdemo/main.go": "$here/main.go",
 "$repo/query/zzdemo/lib.go": "$here/lib.go"
}}
END
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off TMPDIR="$tmp"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./query/zzdemo || exit 2
cd "$tmp" && timeout 120 ./demo
"""


def sh(cmd, cwd, **kw):
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK="off")
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **kw)


def stable(work):
    p = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], work)
    res = {}
    for l in p.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Test") and e.get("Action") in ("pass", "fail", "skip"):
            res[(e["Package"], e["Test"])] = e["Action"]
    return {k for k, v in res.items() if v == "pass"}


def main():
    bugs = []
    for f in sorted((here / "bugs").glob("*.py")):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bugs += m.BUGS
    want = set(sys.argv[1:])
    work = pathlib.Path(tempfile.mkdtemp(prefix="seed."))
    try:
        repo = work / "repo"
        subprocess.check_call(["cp", "-a", "/repo", str(repo)])
        clean = stable(repo)
        for b in bugs:
            if want and b["id"] not in want:
                continue
            if not want and (root / "seeded" / b["id"]).exists():
                continue
            one(b, repo, clean)
    finally:
        shutil.rmtree(work)


def one(b, repo, clean):
    sh(["git", "checkout", "-q", "--", "."], repo)
    d = pathlib.Path(tempfile.mkdtemp(prefix="seed-" + b["id"] + "."))
    try:
        (d / "main.go").write_text("package main\n\n" + b["demo"].lstrip("\n"))
        sh(["gofmt", "-w", str(d / "main.go")], d)
        (d / "lib.go").write_text(LIB)
        (d / "demo.sh").write_text(DEMO)
        os.chmod(d / "demo.sh", 0o755)
        p = sh(["bash", str(d / "demo.sh")], repo)
        if p.returncode != 0:
            print(b["id"], "DEMO FAILS CLEAN", p.returncode, (p.stdout + p.stderr)[-600:])
            return
        for (f, old, new) in b["edits"]:
            t = (repo / f).read_text()
            n = t.count(old)
            if n != 1:
                print(b["id"], "EDIT", f, "matches", n)
                return
            (repo / f).write_text(t.replace(old, new))
        for f in {f for (f, _, _) in b["edits"]}:
            sh(["gofmt", "-w", f], repo)
        p = sh(["go", "build", "./cnf/...", "./compute/...", "./query/..."], repo)
        if p.returncode:
            print(b["id"], "BUILD", p.stderr[-500:])
            return
        lost = clean - stable(repo)
        if lost:
            print(b["id"], "TESTS lost", sorted(lost)[:3])
            return
        p = sh(["bash", str(d / "demo.sh")], repo)
        if p.returncode == 0 or p.returncode == 2 and "FAIL" not in p.stdout and "panic" not in p.stderr:
            print(b["id"], "DEMO PASSES WITH BUG", p.returncode, (p.stdout + p.stderr)[-600:])
            return
        out = (p.stdout + p.stderr).strip().splitlines()
        diff = sh(["git", "diff"], repo).stdout
        (d / "patch.diff").write_text(diff)
        (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        dest = root / "seeded" / b["id"]
        if dest.exists():
            shutil.rmtree(dest)
        shutil.copytree(d, dest)
        print(b["id"], "ok:", out[0][:150] if out else "")
    finally:
        shutil.rmtree(d)
        sh(["git", "checkout", "-q", "--", "."], repo)


main()
