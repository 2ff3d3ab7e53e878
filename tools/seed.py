#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo: seed.py ID... (default: all)
The patch applies and builds, the stable tests pass, demo.sh succeeds without and fails with it."""
import json, os, shutil, subprocess, sys
HERE = os.environ.get("SEEDHERE") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
S = "/tmp/seed"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

def sh(cmd, cwd, timeout=900, **env):
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO")}
    e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def tests(repo):
    script = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo)
    script = script.replace("report=$CARGO_TARGET_DIR/", "report=%s/target/" % repo)
    script = script.replace(". /opt/vp/cfg/env.sh", ". /opt/vp/cfg/env.sh; export CARGO_TARGET_DIR=%s/target" % S)
    open(S + "/test.sh", "w").write(script)
    rc, out = sh("bash %s/test.sh %s/out.json" % (S, S), repo)
    try:
        r = json.load(open(S + "/out.json"))
    except Exception:
        return "no result: " + out[-3000:]
    passed = set(r.get("passed", []))
    bad = [t for t in STABLE if t not in passed]
    return "" if not bad else "%d failing tests: %s" % (len(bad), " ".join(bad[:4]))

def main():
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    os.makedirs(S, exist_ok=True)
    repo = S + "/repo"
    worst = 0
    for i in ids:
        d = os.path.join(SEEDED, i)
        shutil.rmtree(repo, ignore_errors=True)
        sh("git clone -q /repo %s; cp /repo/Cargo.lock %s/" % (repo, repo), "/")
        demo = S + "/demo"
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        errors = []
        rc, out = sh("bash %s/demo.sh" % demo, repo, 300)
        if rc != 0:
            errors.append("demo fails without the patch: %s %s" % (rc, out[-1500:]))
        rc, out = sh("git apply %s/patch.diff" % d, repo)
        if rc != 0:
            errors.append("does not apply: " + out)
        else:
            t = tests(repo)
            if t:
                errors.append(t)
            rc, out = sh("bash %s/demo.sh" % demo, repo, 300)
            if rc == 0:
                errors.append("demo passes with the patch")
            else:
                print("   with the patch:", out.strip()[-300:].replace("\n", " | "))
        print(i, "OK" if not errors else "FAILED", *errors, flush=True)
        worst |= bool(errors)
    shutil.rmtree(repo, ignore_errors=True)
    return worst

sys.exit(main())
