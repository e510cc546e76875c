#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide one property on /repo's working tree.

Stages: build the harness crate against /repo, model-check the design specs, record histories of the real
code, validate them with TLC (or replay TLC-generated behaviours in the real code).  Exit 0 held; exit 1 with
a VIOLATION line; exit 2 tool error."""
import json, os, re, shutil, subprocess, sys, time, signal
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = os.path.join(ROOT, "specs")
BUILD = os.path.join(ROOT, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:" + os.path.join(ROOT, "build", "java")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from registry import CHECKS  # noqa: E402

T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ build
def cargo_env(target, overlay=False):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTFLAGS", "LD_LIBRARY_PATH", "RUST_BACKTRACE", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=target,
             RUSTFLAGS="--cfg spf_verif -C target-feature=+avx2,+fma -A warnings --cap-lints allow")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    return e


def build(crate, part=None):
    d = os.path.join(ROOT, "harness", crate)
    if crate == "cpu":
        import overlay
        overlay.prepare(REPO, os.path.join(BUILD, "overlay"), ROOT)
    target = os.path.join(BUILD, crate)
    os.makedirs(target, exist_ok=True)
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"] + (["--no-default-features", "--features", part] if part else []), cwd=d, env=cargo_env(target),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        raise ToolError("harness %s does not build" % crate)
    return os.path.join(target, "release", "v" + crate)


def build_java():
    """The Java evaluation of module Wide (specs/java)."""
    src = os.path.join(SPECS, "java", "Wide.java")
    out = os.path.join(BUILD, "java")
    cls = os.path.join(out, "Wide.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(out, exist_ok=True)
    p = subprocess.run(["javac", "-d", out, "-cp", CP, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("javac: " + p.stdout[-2000:])


# ------------------------------------------------------------------ TLC
RE_STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")
RE_SIM = re.compile(r"The number of states generated: ([\d,]+)")
RE_REACHED = re.compile(r'<<"REACHED", (\d+), (\d+)>>')


def tlc(spec, cfg, env=None, workers=1, extra=(), timeout=800, heap="1500m", dfs=False):
    md = os.path.join(BUILD, "md", "%s_%s_%d_%d" % (spec, os.path.basename(cfg), os.getpid(), time.time_ns() % 10**9))
    os.makedirs(md, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config",
            os.path.join(SPECS, cfg), *extra, os.path.join(SPECS, spec + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = ((x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")), -999
    shutil.rmtree(md, ignore_errors=True)
    gen = dist = 0
    m = RE_STATES.findall(out)
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = RE_SIM.findall(out)
        if m:
            gen = dist = int(m[-1].replace(",", ""))
    return rc, out, gen, dist


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violations, self.known = [], {}, [], []
        self.work = os.path.join(BUILD, "run", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(BUILD, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.known_keys = {}
        kf = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    self.known_keys[m.group(2)] = m.group(3)

    def scale(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def violation(self, what, replay_obj):
        n = len(self.violations)
        path = os.path.join(self.replays, "%s_%d.json" % (self.pid, n))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "what": what, "replay": replay_obj}, f, indent=1)
        self.violations.append((what, path))
        log("violation:", what)

    # -------------------------------------------------------------- design models
    def model(self, spec, cfg=None, workers=2, extra=(), expect_violation=False, timeout=800, env=None, heap="3g"):
        cfg = cfg or spec + ".cfg"
        rc, out, gen, dist = tlc(spec, cfg, workers=workers, extra=extra, timeout=timeout, env=env, heap=heap)
        if expect_violation:
            if rc not in (12, 13):
                raise ToolError("%s was expected to fail (rc=%s)\n%s" % (cfg, rc, out[-1500:]))
        elif rc != 0:
            raise ToolError("model %s fails (rc=%s)\n%s" % (cfg, rc, out[-3000:]))
        self.transitions += gen
        self.states += dist
        log("model", cfg, "%d states, %d transitions" % (dist, gen))

    # -------------------------------------------------------------- harness
    def harness(self, binary, args, timeout=None, env=None, name=None):
        """Run the harness. Returns its directory, or None after recording a violation (crash, hang)."""
        name = name or args[0]
        timeout = timeout or self.scale(240, 3600)
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        cmd = [binary, args[0], "--seed", str(self.seed), "--dir", d, "--tier", self.tier, *map(str, args[1:])]
        e = dict(os.environ)
        e.update(env or {})
        errf = open(os.path.join(d, "stderr"), "w+")
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=errf, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            self.violation("the code under test does not finish within %d s (%s)" % (timeout, name), {"cmd": cmd, "last": self.tail(d)})
            return None
        if p.returncode == -signal.SIGKILL:
            raise ToolError("harness was killed")
        errf.seek(0)
        err = errf.read()[-2000:]
        if p.returncode == 2:
            print(p.stdout[-2000:], err)
            raise ToolError("harness error")
        if p.returncode != 0:
            self.violation("the code under test crashed (%s, exit %d)" % (name, p.returncode), {"cmd": cmd, "stderr": err, "last": self.tail(d)})
            return None
        s = os.path.join(d, "summary.json")
        if os.path.exists(s):
            j = json.load(open(s))
            self.samples += j.pop("samples", [])[:2]
            self.notes[name] = j
            log("harness", name, json.dumps(j)[:300])
        return d

    def tail(self, d):
        out = {}
        for f in sorted(os.listdir(d)):
            if f.endswith(".ndjson"):
                out[f] = open(os.path.join(d, f), errors="replace").read().splitlines()[-5:]
        return out

    # -------------------------------------------------------------- trace validation
    def validate_shard(self, spec, cfg, path, dfs, timeout, const_env, heap="1500m"):
        res = dict(states=0, trans=0, viol=None, known=[], hist=0)
        lines = open(path).read().splitlines()
        if not lines:
            return res
        for attempt in range(40):
            env = {"TRACE": path}
            env.update(const_env or {})
            rc, out, gen, dist = tlc(spec, cfg, env=env, dfs=dfs, timeout=timeout, heap=heap)
            m = RE_REACHED.findall(out)
            res["states"] += dist
            res["trans"] += gen
            n = len(lines)
            if rc == 0 and m and m[-1][0] == m[-1][1] and int(m[-1][1]) == n + 1:
                res["hist"] = sum(1 for x in lines if '"ev":"reset"' in x)
                return res
            if rc == -999:
                res["err"] = "TLC timed out validating %s" % path
                return res
            if not m and rc not in (12, 13, 14, 75, 76, 77):
                res["err"] = "TLC failed on %s (rc=%s)\n%s" % (path, rc, out[-2500:])
                return res
            if m:
                reached = int(m[-1][0])
            else:  # evaluation failed inside an event: find it from the printed state
                k = re.findall(r"^/?\\?\s*/?\\?\s*i = (\d+)", out, re.M)
                reached = int(k[-1]) if k else None
                if reached is None:
                    res["err"] = "TLC failed on %s (rc=%s)\n%s" % (path, rc, out[-2500:])
                    return res
            idx = min(reached, n) - 1
            s = idx
            while s > 0 and '"ev":"reset"' not in lines[s]:
                s -= 1
            e = idx + 1
            while e < n and '"ev":"reset"' not in lines[e]:
                e += 1
            head = json.loads(lines[s])
            key = head.get("key")
            if key is not None and key in self.known_keys:
                res["known"].append(key)
                del lines[s:e]
                open(path, "w").write("\n".join(lines) + ("\n" if lines else ""))
                if not lines:
                    return res
                continue
            detail = out[-1500:] if rc not in (0,) else ""
            res["viol"] = dict(what="recorded behaviour is not allowed by %s: event %d of its history: %s" % (spec, idx - s, lines[idx][:400]),
                               replay=dict(spec=spec, cfg=cfg, trace=path, history=[json.loads(x) for x in lines[s:min(e, s + 400)]], rejected_event=idx - s, tlc=detail))
            return res
        res["err"] = "too many known findings"
        return res

    def validate(self, spec, d, cfg=None, dfs=False, timeout=400, const_env=None, par=6, heap="1500m"):
        if d is None:
            return
        cfg = cfg or spec + ".cfg"
        shards = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".ndjson")]
        shards = [s for s in shards if os.path.getsize(s) > 0]
        if not shards:
            raise ToolError("no trace recorded in " + d)
        with ThreadPoolExecutor(par) as ex:
            rs = list(ex.map(lambda s: self.validate_shard(spec, cfg, s, dfs, timeout, const_env, heap), shards))
        for r in rs:
            self.states += r["states"]
            self.transitions += r["trans"]
            self.traces += r["hist"]
            self.known += r["known"]
        for r in rs:
            if r["viol"]:
                self.violation(r["viol"]["what"], r["viol"]["replay"])
        if not self.violations:
            for r in rs:
                if r.get("err"):
                    raise ToolError(r["err"])
        log("validated", spec, "%d histories" % sum(r["hist"] for r in rs))

    # -------------------------------------------------------------- verdict
    @staticmethod
    def trim(x, depth=0):
        # an evidence file stays readable: samples are cut, not dropped
        if isinstance(x, list):
            y = [Ctx.trim(e, depth + 1) for e in x[:12]]
            return y + ["... %d more" % (len(x) - 12)] if len(x) > 12 else y
        if isinstance(x, dict):
            return {k: Ctx.trim(v, depth + 1) for k, v in x.items()}
        if isinstance(x, str) and len(x) > 400:
            return x[:400] + "... (%d characters)" % len(x)
        return x

    def finish(self, level):
        samples = []
        for s in self.samples[:4]:
            s = self.trim(s)
            if len(json.dumps(s)) > 8000:
                s = json.dumps(s)[:6000] + "..."
            samples.append(s)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": samples or ["none"],
                           "details": self.notes},
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s key=%s %s" % (self.pid, k, self.known_keys[k]))
        for what, path in self.violations[:3]:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        log("done:", "VIOLATED" if self.violations else "held")
        return 1 if self.violations else 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    ctx = Ctx(pid, tier, seed)
    try:
        build_java()
        pool = ThreadPoolExecutor(8)
        models = [pool.submit(ctx.model, *m[0], **m[1]) for m in c.get("models", lambda c: [])(ctx)]
        binary = build(c["crate"], c.get("part"))
        log("built", c["crate"])
        c["run"](ctx, binary)
        for m in models:
            m.result()
        return ctx.finish(c.get("level", "model_checking"))
    except ToolError as e:
        if ctx.violations:
            return ctx.finish(c.get("level", "model_checking"))
        print("TOOL ERROR:", e)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
