#!/usr/bin/env python3
"""Driver of the runtime monitors: builds the harness against /repo, runs it, writes the evidence.

  run.py C01                      one check (VERIF_SEED, VERIF_TIER or --tier, --seed)
  run.py C01 --replay FILE        repeats the case of a violation
  run.py setup                    builds all variants

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: violated. 2: no answer.
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
SCRATCH = os.path.join(HERE, "scratch")
LINUX = "x86_64-unknown-linux-gnu"
SANITIZED = ("asan", "tsan", "msan")
GUARD = "--cfg fast_paths_verif"
START = time.time()
DEADLINE = START + 840

sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_ENCODED", "CARGO_BUILD"))}
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


# ---------------------------------------------------------------- building

def variant(name):
    """(cargo arguments, RUSTFLAGS, extra environment, directory of the binary)"""
    if name == "std":
        return ["+stable", "build", "--release"], "", {}, "release"
    if name == "checked":
        return ["+stable", "build", "--profile", "checked"], "", {}, "checked"
    if name == "asan":
        return (["+nightly", "build", "--profile", "san", "--target", LINUX], "-Zsanitizer=address --cfg sanitized", {},
                LINUX + "/san")
    if name == "tsan":
        return (["+nightly", "build", "--profile", "san", "-Zbuild-std", "--target", LINUX], "-Zsanitizer=thread --cfg sanitized", {},
                LINUX + "/san")
    if name == "msan":
        return (["+nightly", "build", "--profile", "san", "-Zbuild-std", "--target", LINUX],
                "-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg sanitized", {}, LINUX + "/san")
    if name == "i686":
        import i686
        env, flags = i686.prepare(os.path.join(TARGET, "i686-tools"))
        return (["+nightly", "build", "--release", "-Zbuild-std", "--target", i686.TARGET], flags, env,
                i686.TARGET + "/release")
    raise NoAnswer("unknown variant " + name)


def content_hash():
    """of everything the build depends on: cargo alone only looks at modification times"""
    h = hashlib.sha256()
    for root in ("/repo/src", "/repo/Cargo.toml", os.path.join(HARNESS, "src")):
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


def forget_stale(out):
    stamp = os.path.join(out, "content.hash")
    h = content_hash()
    if os.path.isdir(out) and not (os.path.exists(stamp) and open(stamp).read() == h):
        for d, dirs, _ in os.walk(out):
            if os.path.basename(d) == ".fingerprint":
                for x in dirs:
                    if x.startswith(("fast_paths-", "fpmon-")):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                dirs[:] = []
            elif os.path.basename(d) == "build":
                # the layout of newer versions of cargo: build/<package>/<hash>/fingerprint
                for x in ("fast_paths", "fpmon"):
                    if x in dirs:
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                        dirs.remove(x)
    os.makedirs(out, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h)


def build(name, binary="fpmon", timeout=600):
    args, flags, extra, sub = variant(name)
    out = os.path.join(TARGET, name)
    forget_stale(out)
    last = ""
    for guard in (GUARD, ""):
        env = base_env()
        env.update(extra)
        env["RUSTFLAGS"] = (flags + " " + guard).strip()
        toolchain, rest = args[0], args[1:]
        cmd = ["cargo", toolchain] + rest + ["--offline", "--bin", binary, "--target-dir", out]
        try:
            p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise NoAnswer("the build of variant %s took too long" % name)
        if p.returncode == 0:
            return os.path.join(out, sub, binary)
        last = p.stdout
    raise NoAnswer("the build of variant %s failed:\n%s" % (name, last[-4000:]))


# ---------------------------------------------------------------- running

NOBODY = 65534
USER = []
USER_LOCK = threading.Lock()


def become_nobody():
    os.setgroups([])
    os.setresgid(NOBODY, NOBODY, NOBODY)
    os.setresuid(NOBODY, NOBODY, NOBODY)


def shared(dir):
    """a scratch directory in which the code under test may write"""
    os.makedirs(dir, exist_ok=True)
    os.chmod(dir, 0o777)
    return dir


def unprivileged():
    """whether the code under test can run as a user who owns nothing but scratch files"""
    with USER_LOCK:
        if not USER:
            probe = os.path.join(shared(SCRATCH), "probe-%d" % os.getpid())
            exe = os.path.join(TARGET, "probe-%d" % os.getpid())
            ok = False
            try:
                shutil.copy("/bin/true", exe)
                ok = subprocess.run(["sh", "-c", 'test -r /repo/Cargo.toml && "%s" && echo x > "%s"' % (exe, probe)], cwd=SCRATCH,
                                    preexec_fn=become_nobody, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
            except (OSError, subprocess.SubprocessError):
                pass
            for f in (probe, exe):
                if os.path.exists(f):
                    os.remove(f)
            USER.append(ok)
            if not ok:
                say("runs as the current user, as switching to another one is not possible")
        return USER[0]


def limits(cpu=None, mem=None, drop=False):
    def f():
        if drop:
            become_nobody()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def run(cmd, timeout, cpu=None, mem=None, env=None, cwd=SCRATCH, drop=True):
    """(returncode or None after a timeout, output); drop: as a user without privileges, if possible"""
    drop = drop and unprivileged()
    e = base_env()
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", preexec_fn=limits(cpu, mem, drop), start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


def signal_name(rc):
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return "signal %d" % -rc


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLAN[prop]
        self.violations = []
        self.parts = []
        self.errors = []
        self.binary = "fpmon"

    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        return (DEADLINE if not self.thorough() else START + 3 * 3600) - time.time()

    def violation(self, part, message, **more):
        if self.binary != "fpmon":
            more["binary"] = self.binary
        self.violations.append(dict(part=part, message=message, **more))

    # ------------------------------------------------------------ the harness

    def fpmon(self, part):
        name = part.get("variant", "std")
        exe = build(name, part.get("binary", "fpmon"))
        label = part.get("label", name)
        tag = "%s-%s-%d" % (self.prop, label, os.getpid())
        out = os.path.join(SCRATCH, tag + ".json")
        inflight = os.path.join(SCRATCH, tag + ".inflight")
        args = [exe, part.get("prop", self.prop), "--seed", str(self.seed), "--tier", self.tier, "--out", out,
                "--inflight", inflight, "--hang", str(part.get("hang", 200))] + part.get("args", [])
        env = part.get("env", {})
        sanitizer = name in SANITIZED
        # sanitizers reserve terabytes of address space
        mem = None if sanitizer else 20 << 30
        say("%s: running %s (%s, seed %d)" % (self.prop, label, self.tier, self.seed))
        rc, text = run(args, self.left() - 100, mem=mem, env=env)
        result = None
        if rc in (0, 1) and os.path.exists(out):
            result = json.load(open(out))
        cases = self.inflight(inflight)
        for f in (out, inflight):
            if os.path.exists(f):
                os.remove(f)
        report = self.sanitizer_report(name, text)
        if report:
            self.violation(label, report, args=args[1:], env=env, variant=name, output=text[-20000:])
            return
        if result is not None:
            self.parts.append((label, result))
            for v in result["violations"]:
                self.violation(label, v["message"], stream=v["stream"], idx=v["idx"], detail=v["detail"], variant=name,
                               env=env, harness_prop=args[1])
            if rc == 0 or result["violations"]:
                return
        if rc is None:
            self.errors.append("%s: no result in time" % label)
        elif rc < 0 or rc == 77:
            how = "a case did not end" if rc == 77 else "killed by " + signal_name(rc)
            self.died(part, label, exe, name, env, args[1], cases, how, text)
        else:
            self.errors.append("%s: exit code %s: %s" % (label, rc, text[-2000:]))

    def inflight(self, path):
        r = []
        if os.path.exists(path):
            for line in open(path, errors="replace"):
                w = line.split()
                if len(w) == 3:
                    r.append((w[1], int(w[2])))
        return r

    def died(self, part, label, exe, name, env, prop, cases, how, text):
        """The process died or hung. Only a case that does so again on its own, with generous limits, counts."""
        def one(case):
            stream, idx = case
            out = os.path.join(SCRATCH, "only-%s-%s-%d-%d" % (self.prop, stream, idx, os.getpid()))
            args = [exe, prop, "--seed", str(self.seed), "--tier", self.tier, "--out", out, "--only", stream, str(idx)]
            args += part.get("args", [])
            mem = None if name in SANITIZED else 10 << 30
            rc, t = run(args, min(self.left() - 20, 400), cpu=part.get("cpu", 240), mem=mem, env=env)
            result = None
            if os.path.exists(out):
                result = json.load(open(out))
                os.remove(out)
            return case, rc, t, result
        confirmed = False
        if not cases:
            self.errors.append("%s: %s, no case was running: %s" % (label, how, text[-2000:]))
            return
        with ThreadPoolExecutor(8) as pool:
            for (stream, idx), rc, t, result in pool.map(one, cases):
                if rc is not None and rc < 0 and rc != -signal.SIGKILL:
                    what = {signal.SIGXCPU: "does not end: more than %d s of CPU time" % part.get("cpu", 240)}.get(
                        -rc, "the process dies with " + signal_name(rc))
                    self.violation(label, what, stream=stream, idx=idx, detail=t[-3000:], variant=name, env=env,
                                   harness_prop=prop)
                    confirmed = True
                elif rc == 1 and result and result["violations"]:
                    for v in result["violations"]:
                        self.violation(label, v["message"], stream=stream, idx=idx, detail=v["detail"], variant=name,
                                       env=env, harness_prop=prop)
                    confirmed = True
        if not confirmed:
            self.errors.append("%s: %s, but not again when the cases ran alone: %s" % (label, how, text[-2000:]))

    def sanitizer_report(self, name, text):
        for mark in ("WARNING: ThreadSanitizer:", "WARNING: MemorySanitizer:", "ERROR: AddressSanitizer:", "ERROR: LeakSanitizer:"):
            i = text.find(mark)
            if i >= 0 and name in SANITIZED:
                first = text[i:].splitlines()
                # out of memory and failures of the tool itself are no findings
                if re.search(r"AddressSanitizer: (out of memory|allocation-size-too-big|failed)|CHECK failed", first[0]):
                    return None
                where = [l.strip() for l in first if "fast_paths" in l or "/repo/" in l][:4]
                return first[0].strip() + " " + " | ".join(where)
        return None

    # ------------------------------------------------------------ result

    def replay_file(self, n, v):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%d-%d.json" % (self.prop, self.tier, self.seed, n))
        with open(path, "w") as f:
            json.dump(dict(v, property=self.prop, tier=self.tier, seed=self.seed), f, indent=1)
        return path

    def evidence(self):
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": self.plan["rule"], "samples": []}
        for label, r in self.parts:
            cov["evaluations"] += r.get("evaluations", 0)
            cov["distinct_nontrivial"] += r.get("distinct_nontrivial", 0)
            cov["samples"] += r.get("samples", [])[:8]
            cov["part_" + label] = {k: r[k] for k in r if k not in ("samples", "violations")}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.plan["level"], "coverage": cov,
              "assumptions": self.plan.get("assumptions", []), "wall_s": round(time.time() - START, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        return cov

    def go(self):
        shared(SCRATCH)
        for part in self.plan["parts"]:
            if self.violations:
                break
            if part.get("only_tier") and part["only_tier"] != self.tier:
                continue
            self.binary = part.get("binary", "fpmon")
            try:
                kind = part.get("kind", "fpmon")
                if kind == "fpmon":
                    self.fpmon(part)
                else:
                    import special
                    getattr(special, kind)(self, part)
            except NoAnswer as e:
                self.errors.append(str(e))
        cov = self.evidence()
        known = known_findings(self.prop)
        new = [v for v in self.violations if not any(k in v["message"] for k in known)]
        for k in known:
            if any(k in v["message"] for v in self.violations):
                say("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for n, v in enumerate(new[:5]):
            path = self.replay_file(n, v)
            say("  %s %s %s: %s" % (v["part"], v.get("stream", ""), v.get("idx", ""), v["message"][:2000]))
            if v.get("detail"):
                say("    " + v["detail"][:1500])
            say("VIOLATION property=%s replay=%s" % (self.prop, path))
        if new:
            return 1
        if self.errors:
            for e in self.errors:
                say("NO-ANSWER " + e)
            return 2
        if cov["evaluations"] == 0:
            say("NO-ANSWER nothing was observed")
            return 2
        say("%s held: %d evaluations, %d distinct cases, %.1f s" % (
            self.prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - START))
        return 0


def known_findings(prop):
    """exact message parts of the recorded findings that are not repaired"""
    r = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) (.+)$", line.strip())
        if m and m.group(1) == prop:
            r.append(m.group(2))
    return r


def replay(prop, path):
    v = json.load(open(path))
    shared(SCRATCH)
    if "stream" in v and "variant" in v:
        exe = build(v["variant"], v.get("binary", "fpmon"))
        args = [exe, v.get("harness_prop", prop), "--seed", str(v["seed"]), "--tier", v["tier"], "--only", v["stream"],
                str(v["idx"])]
        rc, text = run(args, 600, cpu=300, env=v.get("env"))
        say(text)
        if rc == 0:
            say("not reproduced")
        return rc
    if "args" in v and "variant" in v:
        exe = build(v["variant"], v.get("binary", "fpmon"))
        rc, text = run([exe] + v["args"], 800, env=v.get("env"))
        say(text)
        return rc
    say(json.dumps(v, indent=1))
    say("this kind of violation is repeated by running the check again")
    return Check(prop, v["tier"], v["seed"]).go()


def setup():
    shared(SCRATCH)
    ok = True
    for name in ("std", "checked", "asan", "tsan", "msan"):
        t = time.time()
        try:
            build(name, timeout=900)
            say("built %s in %.0f s" % (name, time.time() - t))
        except NoAnswer as e:
            say(str(e))
            ok = False
    try:
        import special
        special.setup(build, say)
    except NoAnswer as e:
        say(str(e))
        ok = False
    return 0 if ok else 1


def main():
    a = sys.argv[1:]
    if not a:
        say(__doc__)
        return 2
    if a[0] == "setup":
        return setup()
    def opt(name, default):
        return a[a.index(name) + 1] if name in a else default
    if "--replay" in a:
        return replay(a[0], opt("--replay", None))
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1") or "1"))
    except ValueError:
        seed = 1
    return Check(a[0], tier, seed).go()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        say("NO-ANSWER %s" % e)
        sys.exit(2)
