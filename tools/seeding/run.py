#!/usr/bin/env python3
"""run.py [-p C07[,C08]] [seed id...]: runs the checks against planted bugs.

Works on copies of /repo and /verif under /tmp. Without -p the check of the
property that the bug is planted for is run.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time

root = pathlib.Path(__file__).resolve().parent.parent.parent
args = sys.argv[1:]
props = None
if args and args[0] == "-p":
    props, args = args[1].split(","), args[2:]
seeds = args or sorted(p.name for p in (root / "seeded").iterdir())
work = pathlib.Path(tempfile.mkdtemp(prefix="runseed."))
try:
    repo = work / "repo"
    ver = work / "verif"
    ver.mkdir()
    for d in ("harness", "engine"):
        subprocess.check_call(["cp", "-a", str(root / d), str(ver / d)])
    for f in ("KNOWN_FINDINGS.txt", "properties.jsonl"):
        shutil.copy(root / f, ver / f)
    (ver / "evidence").mkdir()
    (ver / "replays").mkdir()
    gm = ver / "harness" / "go.mod"
    gm.write_text(gm.read_text().replace("=> /repo", "=> " + str(repo)))
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
    subprocess.check_call(["go", "build", "-o", str(work / "symgo"), "."], cwd=ver / "engine", env=env)
    miss = 0
    for s in seeds:
        d = root / "seeded" / s
        if not d.exists():
            d = pathlib.Path(s)
        meta = json.load(open(d / "meta.json"))
        if repo.exists():
            shutil.rmtree(repo)
        subprocess.check_call(["cp", "-a", "/repo", str(repo)])
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=repo)
        subprocess.check_call(["git", "apply", str(d / "patch.diff")], cwd=repo)
        for p in props or [meta["property"]]:
            t = time.time()
            r = subprocess.run([str(work / "symgo"), "-root", str(ver), "-property", p, "-tier", "quick"], env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            ok = r.returncode == 1 and any("property=" + p in l for l in v)
            miss += not ok
            print(f"{'caught' if ok else 'MISSED'} {s} {p} rc={r.returncode} {time.time()-t:.1f}s {len(v)} violations", flush=True)
            if not ok and r.returncode not in (0,) or "unsupported" in r.stdout + r.stderr:
                print("   ", (r.stdout + r.stderr)[-700:])
    print("missed", miss)
finally:
    shutil.rmtree(work)
