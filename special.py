"""Parts of checks that are not a plain run of fpmon."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor


def R():
    import sys
    return sys.modules["__main__"] if hasattr(sys.modules["__main__"], "NoAnswer") else __import__("run")


def setup(build, say):
    build("std", "faultio")
    build("std", "leak")
    build("std", "port")
    build("std", "cost")
    build("std", "memory")
    build("i686", "port")
    miri_build()
    say("built faultio, leak, port (64 and 32 bit), and the Miri workload")


# ---------------------------------------------------------------- C13

def faultio(check, part):
    r = R()
    exe = r.build("std", "faultio")
    out = os.path.join(r.SCRATCH, "faultio-%d.json" % os.getpid())
    args = ["--seed", str(check.seed), "--tier", check.tier, "--out", out]
    rc, text = r.run([exe] + args, check.left() - 60)
    result = None
    if rc in (0, 1) and os.path.exists(out):
        result = json.load(open(out))
        os.remove(out)
    if result is None:
        if rc is not None and rc < 0:
            check.violation("faultio", "the process dies with %s when writes fail" % r.signal_name(rc), detail=text[-3000:],
                            args=args)
        else:
            check.errors.append("faultio: exit code %s: %s" % (rc, text[-2000:]))
        return
    check.parts.append(("faultio", result))
    for v in result["violations"]:
        check.violation("faultio", v["message"], detail=v["detail"], variant="std", binary="faultio", args=args)


# ---------------------------------------------------------------- C15: Miri

def miri_cmd(rest):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", "ubwork", "--target-dir",
            os.path.join(R().TARGET, "miri"), "--"] + [str(x) for x in rest]


def miri_env(i):
    # stacked borrows for the first half, tree borrows for the others; another schedule for each
    flags = "-Zmiri-disable-isolation -Zmiri-seed=%d" % i
    if i % 2:
        flags += " -Zmiri-tree-borrows"
    return {"MIRIFLAGS": flags, "RUSTFLAGS": R().GUARD}


def miri_build():
    r = R()
    r.forget_stale(os.path.join(r.TARGET, "miri"))
    env = r.base_env()
    env.update(miri_env(0))
    try:
        p = subprocess.run(miri_cmd([0, 0, 0]), cwd=r.HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=600)
    except subprocess.TimeoutExpired:
        raise r.NoAnswer("Miri took too long to build the workload")
    if p.returncode != 0:
        raise r.NoAnswer("Miri could not build the workload: " + p.stdout[-3000:])


MIRI_MARKS = ("error: Undefined Behavior", "error: memory leaked", "error: abnormal termination", "error: deadlock",
              "error: the evaluated program leaked")


def miri(check, part):
    r = R()
    miri_build()
    seconds = 1500 if check.thorough() else 75
    begin = time.time()

    def worker(i):
        # several processes one after the other, so that what was observed is known if time runs out
        texts = []
        first = 0
        step = 8
        while time.time() - begin < seconds and check.left() > 200:
            rest = [check.seed, i * 100000 + first, step]
            env = miri_env(i + 8 * first)
            rc, text = r.run(miri_cmd(rest), min(check.left() - 60, 600), env=env, cwd=r.HARNESS, drop=False)
            texts.append((rest, env, rc, text))
            if rc != 0:
                break
            first += step
        return texts

    total = {"calls": 0, "panics": 0, "paths": 0, "corrupted": 0, "threads": 0}
    hashes = set()
    runs = 0
    with ThreadPoolExecutor(8) as pool:
        for texts in pool.map(worker, range(8)):
            for rest, env, rc, text in texts:
                for m in re.finditer(r"^DONE (\d+) (\d+)$", text, re.M):
                    hashes.add(m.group(2))
                    runs += 1
                m = re.search(r"^Log \{(.*)\}$", text, re.M)
                if m:
                    for k, v in re.findall(r"(\w+): (\d+)", m.group(1)):
                        if k in total:
                            total[k] += int(v)
                if rc == 0:
                    continue
                mark = [x for x in MIRI_MARKS if x in text]
                if mark:
                    at = text.index(mark[0])
                    check.violation("miri", " ".join(l.strip() for l in text[at:].splitlines()[:4]), detail=text[at:at + 3000],
                                    miri=rest, env=env)
                else:
                    check.errors.append("miri: exit code %s: %s" % (rc, text[-2000:]))
    check.parts.append(("miri", {"evaluations": total["calls"], "distinct_nontrivial": len(hashes), "counters":
                                 dict(total, rounds=runs), "samples": ["ubwork %d 0 8 under Miri" % check.seed],
                                 "seconds": round(time.time() - begin, 1)}))


# ---------------------------------------------------------------- C21: 32-bit platform

def port(check, part):
    import shutil
    r = R()
    exe64 = r.build("std", "port")
    exe32 = r.build("i686", "port")
    rc, text = r.run([exe32, "nothing"], 60)
    if rc != 2 or "HARNESS-ERROR" not in text:
        check.errors.append("programs for 32-bit Linux cannot be executed here: exit code %s %s" % (rc, text[-500:]))
        return
    base = os.path.join(r.SCRATCH, "port-%d" % os.getpid())

    def step(label, exe, mode, dir):
        """False if the others should not follow"""
        r.shared(dir)
        out = dir + "-" + label + ".json"
        args = [mode, "--seed", str(check.seed), "--tier", check.tier, "--out", out]
        r.say("%s: %s" % (check.prop, label))
        for attempt in range(2):
            rc, text = r.run([exe] + args, check.left() - 60, env={"FP_PORT_DIR": dir})
            if rc is None or rc >= 0 or rc == -9:
                break
        if rc in (0, 1) and os.path.exists(out):
            result = json.load(open(out))
            os.remove(out)
            check.parts.append((label, result))
            for v in result["violations"]:
                check.violation(label, v["message"], stream=v["stream"], idx=v["idx"], detail=v["detail"], port=mode)
            return not result["violations"]
        if rc is not None and rc < 0 and rc != -9:
            check.violation(label, "the process dies with %s, twice" % r.signal_name(rc), detail=text[-3000:], port=mode)
        else:
            check.errors.append("%s: exit code %s: %s" % (label, rc, text[-2000:]))
        return False

    try:
        (step("written_by_64_bit", exe64, "write", base + "-a") and
         step("repeated_by_32_bit", exe32, "verify", base + "-a") and
         step("written_by_32_bit", exe32, "write", base + "-b") and
         step("repeated_by_64_bit", exe64, "verify", base + "-b") and
         step("32_bit_alone", exe32, "own", base + "-c"))
    finally:
        for x in "abc":
            shutil.rmtree(base + "-" + x, ignore_errors=True)


# ---------------------------------------------------------------- C22, C23, C25: instruction counts

def queries(check, part):
    import cost
    cost.queries(check, part)


def scaling(check, part):
    import cost
    cost.scaling(check, part)


def preparation(check, part):
    import cost
    cost.preparation(check, part)
