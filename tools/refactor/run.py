#!/usr/bin/env python3
"""run.py [-p C07[,C08]] [refactoring...]: runs checks against rewritten code.

Each *.diff here changes how the code is written but not what it does; every
check must stay quiet. Works on copies of /repo and /verif under /tmp.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time

here = pathlib.Path(__file__).resolve().parent
root = here.parent.parent
args = sys.argv[1:]
props = sorted({json.loads(l)["id"] for l in open(root / "properties.jsonl")})
if args and args[0] == "-p":
    props, args = args[1].split(","), args[2:]
which = args or sorted(p.stem for p in here.glob("*.diff"))
work = pathlib.Path(tempfile.mkdtemp(prefix="runref."))
try:
    repo, ver = work / "repo", work / "verif"
    ver.mkdir()
    for d in ("harness", "engine"):
        subprocess.check_call(["cp", "-a", str(root / d), str(ver / d)])
    for f in ("KNOWN_FINDINGS.txt", "properties.jsonl"):
        shutil.copy(root / f, ver / f)
    (ver / "evidence").mkdir()
    (ver / "replays").mkdir()
    gm = ver / "harness" / "go.mod"
    gm.write_text(gm.read_text().replace("=> /repo", "=> " + str(repo)))
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
    subprocess.check_call(["go", "build", "-o", str(work / "symgo"), "."], cwd=ver / "engine", env=env)
    bad = 0
    for w in which:
        if repo.exists():
            shutil.rmtree(repo)
        subprocess.check_call(["cp", "-a", "/repo", str(repo)])
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=repo)
        subprocess.check_call(["git", "apply", str(here / (w + ".diff"))], cwd=repo)
        b = subprocess.run(["go", "vet", "./..."], cwd=repo, env=dict(env, GOFLAGS=""), capture_output=True, text=True)
        if b.returncode:
            print(w, "does not build", b.stderr)
            continue
        for p in props:
            t = time.time()
            r = subprocess.run([str(work / "symgo"), "-root", str(ver), "-property", p, "-tier", "quick"], env=env, capture_output=True, text=True)
            out = r.stdout + r.stderr
            ok = r.returncode == 0 and "unsupported" not in out and "timeout=true" not in out
            bad += not ok
            print(f"{'quiet' if ok else 'ALARM'} {w} {p} rc={r.returncode} {time.time()-t:.1f}s", flush=True)
            if not ok:
                print("   ", out[-1500:])
    print("alarms", bad)
finally:
    shutil.rmtree(work)
