#!/usr/bin/env python3
"""check.py ID: decides one property (see DESIGN.md).

Builds the harness against /repo's working tree, model-checks the specification, has the harness
exercise the real library, and has TLC judge what it recorded against the specification.

Exit 0: held on everything explored.  Exit 1: "VIOLATION property=ID replay=PATH".  Exit 2: the
check itself could not do its work.
"""
import concurrent.futures as cf
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()
DEADLINE = T0 + (860 if TIER == "quick" else 6 * 3600)


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def left():
    return max(5, DEADLINE - time.time())


def env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e["CARGO_NET_OFFLINE"] = "true"
    # Tables are created and dropped all the time; keep the memory.
    e["MALLOC_MMAP_THRESHOLD_"] = "100000000"
    e["MALLOC_TRIM_THRESHOLD_"] = "1000000000"
    e["MALLOC_TOP_PAD_"] = "10000000"
    return e


# ---- building ------------------------------------------------------------------------------

def toolchain_env():
    e = env()
    f = "/opt/vp/env.sh"
    if os.path.exists(f):
        out = subprocess.run(["bash", "-c", f"source {f} >/dev/null 2>&1; env -0"], capture_output=True, env=e).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.decode(errors="replace").split("=", 1)
                if k in ("RUSTUP_TOOLCHAIN", "RUSTUP_HOME", "CARGO_HOME", "PATH"):
                    e[k] = v
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def cargo(profile, features, tag):
    """Builds one flavour of the harness; returns (path or None, output)."""
    tdir = os.path.join(BUILD, "target-" + tag)
    os.makedirs(tdir, exist_ok=True)
    cmd = ["cargo"] + (["+nightly"] if "anticipate" in features else []) + ["build", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
           "--no-default-features", "--features", ",".join(features), "--profile", profile]
    e = toolchain_env()
    e["CARGO_TARGET_DIR"] = tdir
    with open(os.path.join(tdir, ".check-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left())
    exe = os.path.join(tdir, profile, "lab")
    return (exe if p.returncode == 0 and os.path.exists(exe) else None), p.stdout


FLAVOURS = {
    "release": ("release", ["fstd", "wyrng", "extremes"]),
    "checked": ("checked", ["fstd", "wyrng", "extremes"]),
    "oorandom": ("release", ["fstd", "oorandom", "extremes"]),
    "fastrand": ("release", ["fstd", "fastrand", "extremes"]),
    "anticipate": ("checked", ["fstd", "wyrng", "extremes", "anticipate"]),  # language features of nightly
    "alloc": ("checked", ["falloc", "oorandom", "extremes"]),  # no std
    "core": ("checked", ["extremes"]),  # no package features at all
    "every": ("release", ["fstd", "wyrng", "oorandom", "fastrand", "extremes"]),
    "core_anticipate": ("release", ["wyrng", "extremes", "anticipate"]),
}
OPTIONAL = ("anticipate", "core_anticipate")
# The nightly with which the library is known to build with "anticipate"; others may have changed
# the language features that this depends on.
NIGHTLY = "92b5b8c87"


def known_nightly():
    try:
        return NIGHTLY in subprocess.run(["rustc", "+nightly", "-V"], env=toolchain_env(), capture_output=True, text=True).stdout
    except OSError:
        return False


def probe(features, toolchain=()):
    """Builds and runs the program that uses all the library offers with these package features."""
    tdir = os.path.join(BUILD, "probe")
    os.makedirs(tdir, exist_ok=True)
    e = toolchain_env()
    e["CARGO_TARGET_DIR"] = tdir
    rec = {"features": features, "built": False, "items": [], "default": "", "wrong": False}
    with open(os.path.join(tdir, ".check-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", *toolchain, "build", "--offline", "--release", "--manifest-path",
                            os.path.join(VERIF, "probe", "Cargo.toml"), "--features", ",".join(features)],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left())
        if p.returncode:
            bad = re.findall(r"^error(?:\[E\d+\])?: (?!could not compile).*", p.stdout, re.M)
            if not bad or "signal:" in p.stdout:
                raise ToolError(f"cannot build the probe ({features}):\n{p.stdout[-3000:]}")
            return {**rec, "output": p.stdout[-2500:]}
        q = subprocess.run([os.path.join(tdir, "release", "probe")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    try:
        return json.loads(q.stdout)
    except ValueError:  # it did not get to its end
        return {**rec, "built": True, "wrong": True, "output": f"exit code {q.returncode}: {q.stdout[-1000:]}"}


def build(flavours, setup=False):
    """Returns {flavour: exe}; {"degraded": output} added if only the build without extreme
    parameters succeeds."""
    res = {}

    def one(fl):
        prof, feats = FLAVOURS[fl]
        exe, out = cargo(prof, feats, fl)
        if exe:
            return fl, exe, None
        exe2, out2 = cargo(prof, [f for f in feats if f != "extremes"], fl + "-plain")
        if exe2:
            return fl, exe2, out
        if fl in OPTIONAL and setup:
            return fl, None, None
        raise ToolError(f"cannot build the harness ({fl}):\n{out[-3000:]}\n{out2[-3000:]}")

    with cf.ThreadPoolExecutor(4) as ex:
        for fl, exe, bad in ex.map(one, flavours):
            res[fl] = exe
            if bad:
                res["degraded"] = bad
    return res


# ---- running TLC ---------------------------------------------------------------------------

STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = STAT.findall(out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out or \
                  (rc == 0 and "Finished in" in out and "Error:" not in out)
        self.invariant = None
        m = re.search(r"Invariant (\S+) is violated", out)
        if m:
            self.invariant = m.group(1)
        m = re.search(r"(?:Action|Temporal) propert(?:y|ies) (?:(\S+) )?(?:is|were|was) violated", out)
        if m and not self.invariant:
            self.invariant = m.group(1) or "temporal property"
        self.deadlock = "Deadlock reached" in out
        self.vars = dict(re.findall(r"^(?:/\\ )?(\w+) = (.*)$", out, re.M))  # of the last state shown


def tlc(module, cfg, work, data=None, workers=8, extra=(), xss="256m", deadlock=True, name=None, more_env=None, heap=None):
    """cfg: text of a configuration."""
    name = name or module
    os.makedirs(work, exist_ok=True)
    cpath = os.path.join(work, name + ".cfg")
    with open(cpath, "w") as f:
        f.write(cfg)
    md = os.path.join(work, name + ".md")
    shutil.rmtree(md, ignore_errors=True)
    e = env()
    e["JAVA_TOOL_OPTIONS"] = f"-Xss{xss}" + (f" -Xmx{heap}" if heap else "")
    if data:
        e["DATA"] = data
    e.update(more_env or {})
    cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-config", cpath, "-metadir", md]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=left())
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC ran out of time on {name}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    with open(os.path.join(work, name + ".out"), "w") as f:
        f.write(p.stdout)
    return Tlc(p.returncode, p.stdout)


def cfg(spec="Spec", consts=None, invariants=(), properties=(), extra="", deadlock=None):
    s = f"SPECIFICATION {spec}\n"
    for k, v in (consts or {}).items():
        if isinstance(v, bool):
            v = "TRUE" if v else "FALSE"
        s += f"CONSTANT {k} {'' if str(v).startswith('<-') else '= '}{v}\n"
    if invariants:
        s += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        s += "PROPERTIES " + " ".join(properties) + "\n"
    if deadlock is not None:
        s += f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}\n"
    return s + extra + "\n"


# ---- one check -----------------------------------------------------------------------------

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.quick = TIER == "quick"
        self.work = os.path.join(BUILD, "work", f"{pid}-{TIER}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "design_models": [], "conformance": []}
        self.assumptions = []
        self.exe = {}

    def build(self, *flavours):
        self.exe.update(build(flavours or ("release", "checked")))

    def can_build(self, flavour):
        """For what depends on unstable language features, which this compiler may not have."""
        exe, out = cargo(*FLAVOURS[flavour], flavour)
        if exe:
            self.exe[flavour] = exe
        else:
            self.cov.setdefault("not_built", []).append({"flavour": flavour, "output": out[-300:]})
        return bool(exe)

    # -- design
    def model(self, module, conf, label, deadlock=True, min_states=2, **kw):
        t = time.time()
        r = tlc(module, conf, os.path.join(self.work, "model"), deadlock=deadlock,
                name=re.sub(r"\W+", "_", f"{module}_{label}"), **kw)
        if not r.ok:
            raise ToolError(f"the specification itself fails ({module}, {label}):\n{r.out[-3000:]}")
        if r.distinct < min_states:
            raise ToolError(f"vacuous model {module} {label}: {r.distinct} states")
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["design_models"].append({"model": module, "what": label, "distinct_states": r.distinct,
                                          "states_generated": r.generated, "wall_s": round(time.time() - t, 1)})
        return r

    def prove(self, module, label):
        """Has tlapm check the proofs of a module of the specification.  They do not depend on the
        library, so a prover that runs out of time on a busy machine makes the evidence less, and
        is an error only of the thorough check."""
        t = time.time()
        if any(p["module"] == module for p in self.cov.get("proofs", [])):
            return
        n, rest = 0, ""
        for stretch in (1, 4):
            cmd = ["tlapm", "--strict", "--threads", "4", "--stretch", str(stretch), "--cache-dir",
                   os.path.join(self.work, "tlacache"), module + ".tla"]
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=min(left(), 240 * stretch if self.quick else 3600))
                rest = p.stdout
            except (subprocess.TimeoutExpired, OSError) as ex:
                rest = str(ex)
                continue
            m = re.search(r"All (\d+) obligations? proved", rest)
            if p.returncode == 0 and m:
                n = int(m.group(1))
                break
        if not n and not self.quick:
            raise ToolError(f"the proofs of {module} are not accepted:\n{rest[-3000:]}")
        self.cov.setdefault("proofs", []).append({"module": module, "what": label, "obligations_proved": n, "all": bool(n),
                                                  "wall_s": round(time.time() - t, 1), **({} if n else {"not_proved": rest[-500:]})})

    # -- harness
    def lab(self, cmd, args=(), shards=4, flavours=("release", "checked"), scale=1.0, hang=90, name=None):
        """Runs `shards` recorders per flavour, each with a seed of its own; returns their output
        directories."""
        name = name or cmd
        jobs = []
        for fi, fl in enumerate(flavours):
            if fl not in self.exe:
                self.build(fl)
            for s in range(shards):
                d = os.path.join(self.work, name, f"{fl}{s}")
                os.makedirs(d)
                jobs.append((fl, d, SEED * 1000 + fi * 100 + s, fi * shards + s))

        def one(j):
            fl, d, seed, ix = j
            e = env()
            e["LAB_HANG_S"] = str(hang)
            a = [self.exe[fl], cmd, d, str(seed), repr(scale)] + list(args) + [f"shard={ix}", f"shards={len(jobs)}"]
            try:
                with open(os.path.join(d, "stderr"), "w") as ef:
                    p = subprocess.run(a, stdout=subprocess.PIPE, stderr=ef, text=True, env=e, timeout=left())
                return j, p.returncode, a
            except subprocess.TimeoutExpired:
                return j, "timeout", a

        dirs, bad = [], None
        with cf.ThreadPoolExecutor(8) as ex:
            for j, rc, a in ex.map(one, jobs):
                if rc == 0:
                    dirs.append(j[1])
                elif bad is None or (isinstance(rc, int) and rc < 0):
                    bad = (j, rc, a)
        if bad:
            j, rc, a = bad
            crumb = ""
            try:
                crumb = open(os.path.join(j[1], "crumb")).read()
                err = open(os.path.join(j[1], "stderr")).read()[-2000:]
            except OSError:
                err = ""
            if rc == "timeout":
                raise ToolError(f"recorder ran out of time: {a} while at {crumb[:500]}")
            if rc == 97:
                raise Violation("a comparison neither ended nor called back", {"at": crumb, "command": a})
            if isinstance(rc, int) and (rc < 0 or rc in (134, 139)):
                if rc == -signal.SIGKILL:
                    raise ToolError(f"recorder was killed: {a} while at {crumb[:500]}")
                raise Violation(f"the process died (signal {-rc if rc < 0 else rc})", {"at": crumb, "command": a, "stderr": err})
            raise ToolError(f"recorder failed with {rc}: {a}\n{err}")
        return dirs

    def gather(self, dirs, fname, out=None):
        """Concatenates the recordings; returns (path, number of records)."""
        path = os.path.join(self.work, out or fname)
        n = 0
        with open(path, "w") as f:
            for d in dirs:
                with open(os.path.join(d, fname)) as g:
                    for line in g:
                        f.write(line)
                        n += 1
        return path, n

    def write(self, fname, recs):
        path = os.path.join(self.work, fname)
        with open(path, "w") as f:
            f.writelines(json.dumps(r) + "\n" for r in recs)
        return path

    def stats(self, dirs):
        tot = {}

        def add(t, d):
            for k, v in d.items():
                if isinstance(v, dict):
                    add(t.setdefault(k, {}), v)
                elif isinstance(v, (int, float)):
                    t[k] = t.get(k, 0) + v
                else:
                    t[k] = v
        for d in dirs:
            p = os.path.join(d, "stats.json")
            if os.path.exists(p):
                add(tot, json.load(open(p)))
        return tot

    # -- conformance
    def judge(self, module, conf, path, n, label, index="i", what=None, deadlock=False, stats=None, **kw):
        """Has TLC judge n recordings in the file."""
        if n == 0:
            raise ToolError(f"nothing recorded for {label}")
        t = time.time()
        name = re.sub(r"\W+", "_", f"{module}_{label}")
        r = tlc(module, conf, os.path.join(self.work, "judge"), data=path, deadlock=deadlock, name=name, **kw)
        if r.invariant or (deadlock and r.deadlock):
            rec = {}
            try:
                ix = int(r.vars.get(index, "0"))
                with open(path) as f:
                    for k, line in enumerate(f, 1):
                        if k == ix:
                            rec = json.loads(line)
                            break
            except Exception as ex:  # still a violation
                rec = {"unreadable": str(ex)}
            if r.invariant == "CertOK":
                raise ToolError(f"the recorder's certificate is wrong: record {r.vars.get(index)} of {path}")
            raise Violation(f"{module}: " + (f"{r.invariant} does not hold" if r.invariant else
                            f"recording is not a behaviour of the specification, at event {r.vars.get('l')}"),
                            {"record": rec, "final_state": r.vars, "tlc": r.out[-6000:]})
        if not r.ok:
            raise ToolError(f"TLC failed on {label}:\n{r.out[-3000:]}")
        if r.distinct < n:
            raise ToolError(f"{label}: {r.distinct} states for {n} recordings, not all were judged")
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["traces_validated_against_impl"] += n
        self.cov["conformance"].append({"spec": module, "what": label, "recordings": n, "distinct_states": r.distinct,
                                        "states_generated": r.generated, "wall_s": round(time.time() - t, 1),
                                        **({"recorded": stats} if stats else {})})
        self.sample(path)
        return r

    def sample(self, path, k=1):
        with open(path) as f:
            lines = f.readlines()
        if lines:
            step = max(1, len(lines) // (k + 1))
            for i in range(k):
                self.cov["samples"].append(lines[min(len(lines) - 1, (i + 1) * step)].strip()[:1500])

    # -- the end
    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def violated(self, v):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{self.pid}-{TIER}-{SEED}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": v.what, **v.detail}, f, indent=1)
        self.evidence(1)
        print(f"{self.pid}: {v.what}")
        print(f"VIOLATION property={self.pid} replay={path}")
        return 1


def known_findings():
    """{property: [signature]} of findings recorded but not repaired."""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m:
                res.setdefault(m.group(1), []).append(m.group(2).strip())
    return res


def main():
    import plans
    if sys.argv[1:] == ["--setup"]:
        global DEADLINE
        DEADLINE = T0 + 1700
        build(list(FLAVOURS), setup=True)
        return 0
    if len(sys.argv) != 2 or sys.argv[1] not in plans.PLANS:
        print("usage: check.py ID", file=sys.stderr)
        return 2
    pid = sys.argv[1]
    c = Check(pid)
    try:
        plans.PLANS[pid](c)
        for sig in known_findings().get(pid, []):
            print(f"KNOWN-FINDING: property={pid} {sig}")
        c.evidence(0)
        print(f"{pid}: held; {c.cov['states']} states, {c.cov['traces_validated_against_impl']} recordings validated, "
              f"{round(time.time() - T0)} s")
        shutil.rmtree(c.work, ignore_errors=True)
        return 0
    except Violation as v:
        return c.violated(v)
    except ToolError as e:
        print(f"{pid}: check failed: {e}", file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as e:
        print(f"{pid}: check failed: out of time: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
