#!/usr/bin/env python3
"""Runs the check of one property: drive the real code, let TLC judge what was recorded.

    run.py check ID          quick or thorough by VERIF_TIER, seed by VERIF_SEED
    run.py replay FILE       run the recorded case again and let TLC judge it
    run.py setup             build what the checks need
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "work")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- build

def build(binary):
    """Build one driver from /repo's working tree, with the hooks on."""
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del env[k]
    env.update(
        RUSTUP_TOOLCHAIN="1.92.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        RUSTFLAGS="--cfg masstree_verif -Awarnings", RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=os.path.join(WORK, "target"),
    )
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--bin", binary], cwd=os.path.join(HERE, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise ToolError("the drivers do not build")
    log(f"built {binary} in {time.time()-t:.1f}s")
    return os.path.join(WORK, "target", "debug", binary)


# ---------------------------------------------------------------- running things

CPU = list(range(CORES))
CPU_LOCK = threading.Lock()


class Ctx:
    """One run of one check."""

    def __init__(self, pid):
        self.pid = pid
        self.dir = os.path.join(WORK, "run", f"{pid}-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        self.replays = os.path.join(WORK, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.model_states = 0
        self.viol = []          # (description, replay path)
        self.stats = {}         # counters summed over drivers
        self.samples = []
        self.notes = []
        self.lock = threading.Lock()
        self.n = 0

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, f"{self.n:03d}-{name}")

    def add_stats(self, leg, d):
        with self.lock:
            s = self.stats.setdefault(leg, {})
            for k, v in d.items():
                if isinstance(v, int) and k not in ("next_seed",):
                    s[k] = s.get(k, 0) + v

    def violation(self, what, case):
        with self.lock:
            p = os.path.join(self.replays, f"{self.pid}-{len(self.viol)+1}.json")
            if len(self.viol) < 20:
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "what": what, **case}, f)
            self.viol.append((what, p))


def run_driver(ctx, exe, args, leg, timeout):
    """Run a driver pinned to a core. Returns the path of its records.

    A run that dies or never ends is itself an observation: no behaviour of any of the
    specifications ends without the calls having returned.
    """
    if TIER == "quick":
        timeout = min(timeout, 300)
    out, status = ctx.path(f"{leg}.ndjson"), ctx.path(f"{leg}.status")
    with CPU_LOCK:
        cpu = CPU.pop() if CPU else None
    cmd = ["taskset", "-c", str(cpu)] if cpu is not None else []
    cmd += [exe] + args + ["--out", out, "--status", status]
    t = time.time()
    try:
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            rc, err = p.returncode, p.stderr[-2000:].decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            rc, err = 124, "timeout"
    finally:
        if cpu is not None:
            with CPU_LOCK:
                CPU.append(cpu)
    if rc != 0:
        st = ""
        try:
            st = open(status).read().split("\n")[0].strip()
        except OSError:
            pass
        kinds = {71: "the run does not come to an end (step limit)", 73: "the run hangs",
                 101: "the driver was stopped by a panic", 124: "the run did not end in time"}
        what = kinds.get(rc, f"the process died with signal {-rc}" if rc < 0 else f"the process ended with code {rc}")
        if not st:
            raise ToolError(f"driver {leg} failed before doing anything: rc {rc} {err}")
        ctx.violation(f"{what} [{leg}: {st}]", {"mode": "crash", "exe": os.path.basename(exe), "args": args, "status": st, "rc": rc, "stderr": err})
    return out


def run_tlc(ctx, module, cfg, trace=None, workers=1, timeout=800, env=None, heap="3g", extra=()):
    meta = ctx.path("meta")
    e = dict(os.environ)
    if trace:
        e["TRACE"] = trace
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, f"-Djava.io.tmpdir={ctx.dir}", f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC ran out of time on {cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    o = p.stdout
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", o)
    gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return p.returncode, o, gen, dis


def model_leg(ctx, module, cfg, workers=2, timeout=800, expect_error=None):
    """Exhaustive check of a specification. With expect_error: a known-bad variant must fail."""
    def go():
        rc, o, gen, dis = run_tlc(ctx, module, cfg, workers=workers, timeout=timeout, heap="6g")
        ok = "Model checking completed. No error has been found" in o
        if expect_error:
            if ok or not re.search(expect_error, o):
                log(o[-3000:])
                raise ToolError(f"the bad variant {cfg} was not refuted")
        elif not ok:
            log(o[-5000:])
            raise ToolError(f"the specification {cfg} does not hold")
        with ctx.lock:
            ctx.states += dis
            ctx.transitions += gen
            ctx.model_states += dis
            ctx.notes.append(f"{cfg}: {dis} distinct states{' (bad variant refuted)' if expect_error else ''}")
    return go


EVAL_ERROR = re.compile(r"Attempted to |evaluating the nested")


def judge(ctx, module, cfg, lines, leg, case, timeout=800):
    """Let TLC judge recorded lines; report those no behaviour explains."""
    if not lines:
        return
    f = ctx.path(f"{leg}.trace")
    with open(f, "w") as fh:
        fh.writelines(lines)
    rc, o, gen, dis = run_tlc(ctx, module, cfg, trace=f, timeout=timeout)
    chk = re.findall(r'<<"CHECKED", (\d+)>>', o)
    if not chk and EVAL_ERROR.search(o):
        # a recorded value for which the specification has no meaning at all: find the record
        os.unlink(f)
        if len(lines) > 1:
            m = len(lines) // 2
            judge(ctx, module, cfg, lines[:m], leg, case, timeout)
            judge(ctx, module, cfg, lines[m:], leg, case, timeout)
            return
        ctx.violation(f"{cfg[:-4]} gives no meaning to what was recorded [{leg}]",
                      {"mode": "trace", "module": module, "cfg": cfg, "line": lines[0].strip(), "at": 0, "why": o[-1500:], **case,
                       "run": json.loads(lines[0]).get("run")})
        return
    if not chk or int(chk[-1]) != len(lines):
        log(o[-5000:])
        raise ToolError(f"TLC did not judge {leg} ({cfg}, {f})")
    bad = re.findall(r'<<"REJECTED", (\d+), (-?\d+)(?:, ([^>]*))?>>', o)
    if not bad and "No error has been found" not in o:
        log(o[-5000:])
        raise ToolError(f"TLC failed on {leg} ({cfg}, {f})")
    with ctx.lock:
        ctx.states += dis
        ctx.transitions += gen
        ctx.traces += len(lines)
        if len(ctx.samples) < 3:
            ctx.samples.append(lines[0][:1500].strip())
    for i, at, why in bad[:20]:
        rec = lines[int(i) - 1]
        try:
            run = json.loads(rec).get("run")
        except ValueError:
            run = None
        ctx.violation(f"{cfg[:-4]} accepts no further step at {at} {why or ''} [{leg}: {json.dumps(run)}]",
                      {"mode": "trace", "module": module, "cfg": cfg, "line": rec.strip(), "at": int(at), "why": why, **case, "run": run})
    os.unlink(f)


def driver_leg(ctx, exe, args, leg, judges, timeout=800, chunk=4000):
    """Drive the code, then judge each kind of record with its trace specification.

    judges: {record kind: (module, cfg)}"""
    def go():
        if len(ctx.viol) >= 8:
            return
        out = run_driver(ctx, exe, args, leg, timeout)
        by = {}
        try:
            with open(out, errors="replace") as f:
                for line in f:
                    if not line.endswith("\n"):
                        continue
                    m = re.match(r'\{"kind":"(\w+)"', line)
                    if not m:
                        continue
                    if m[1] == "stats":
                        ctx.add_stats(leg, json.loads(line))
                    elif m[1] in judges:
                        by.setdefault(m[1], []).append(line)
        except OSError:
            pass
        for kind, lines in by.items():
            module, cfg = judges[kind]
            for i in range(0, len(lines), chunk):
                judge(ctx, module, cfg, lines[i:i + chunk], leg, {"exe": os.path.basename(exe), "args": args})
        if os.path.exists(out):
            os.unlink(out)
    return go


def pool(legs, width=CORES):
    with cf.ThreadPoolExecutor(width) as ex:
        fs = [ex.submit(l) for l in legs]
        err = None
        for f in fs:
            try:
                f.result()
            except ToolError as e:
                err = err or e
        return err


# ---------------------------------------------------------------- known findings

def known_findings():
    """Lines 'finding: property=<id> match=<regex> what=<text>' suppress exactly what they match."""
    r = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(\S+) what=(.*)", l)
            if m:
                r.append((m[1], re.compile(m[2]), m[3].strip()))
    except OSError:
        pass
    return r


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    os.makedirs(WORK, exist_ok=True)
    import checks
    if sys.argv[1] == "setup":
        for b in checks.BINARIES:
            build(b)
        return 0
    if sys.argv[1] == "replay":
        return checks.replay(sys.argv[2])
    pid = sys.argv[2]
    t0 = time.time()
    ctx = Ctx(pid)
    try:
        err = checks.run(ctx)
    except ToolError as e:
        err = e
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)
    found = []
    for p, rx, what in known_findings():
        if p == pid:
            log(f"KNOWN-FINDING: property={pid} {what}")
            found.append(rx)
    viol = [(w, r) for w, r in ctx.viol if not any(rx.search(w) for rx in found)]
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
        "level": "model_checking",
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "model_states": ctx.model_states,
            "drivers": ctx.stats, "samples": ctx.samples or ["none"],
            "notes": ctx.notes,
            "explanation": checks.EXPLAIN.get(pid, ""),
        },
        "assumptions": checks.ASSUME,
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w, r in viol[:8]:
        log("  " + w[:400])
    if viol:
        log(f"VIOLATION property={pid} replay={viol[0][1]}")
        return 1
    if err is not None:
        log(f"ERROR: {err}")
        return 2
    log(f"OK property={pid}: {ctx.traces} recorded behaviours accepted, {ctx.states} states, {time.time()-t0:.0f}s")
    return 0


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    try:
        sys.exit(main())
    except ToolError as e:
        log(f"ERROR: {e}")
        sys.exit(2)
