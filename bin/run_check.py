#!/usr/bin/env python3
"""Runs the check of one property.

  run_check.py build                 build harness (and binaries) from /repo's working tree
  run_check.py C03                   quick or thorough by VERIF_TIER, seed from VERIF_SEED
  run_check.py C03 --replay FILE     re-record and re-validate one replay file

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: tool error.
"""
import concurrent.futures, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS  # noqa: E402


LOCK = threading.Lock()


class ToolError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def source_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo(args, manifest, target):
    """Build, making sure that a change of /repo's contents is seen whatever its mtime."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "repo.stamp")
    cur = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != cur:
        if old is not None:
            subprocess.run(["cargo", "clean", "--offline", "--manifest-path", manifest,
                            "--target-dir", target, "-p", "fbas_analyzer"],
                           env=cargo_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.remove(stamp)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", manifest,
                        "--target-dir", target] + args, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = "\n".join(l for l in r.stdout.splitlines() if "error" in l)[:2000]
        raise ToolError("build failed:\n" + errs + r.stdout[-1500:])
    with open(stamp, "w") as f:
        f.write(cur)


def build_harness():
    t = os.path.join(HARNESS, "target")
    cargo([], os.path.join(HARNESS, "Cargo.toml"), t)
    return os.path.join(t, "debug", "harness")


def build_bins():
    t = os.path.join(VERIF, ".build", "repo")
    cargo(["--bins"], os.path.join(REPO, "Cargo.toml"), t)
    return os.path.join(t, "debug")


class Ctx:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.thorough = tier == "thorough"
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.detail = [], {}
        self.violations = []
        self.known = []
        self.harness = self.bins = None

    def path(self, name):
        return os.path.join(self.work, name)

    def violation(self, stage, what, payload):
        p = self.path("replay-%s.json" % stage)
        with open(p, "w") as f:
            json.dump(payload, f)
            f.write("\n")
        self.violations.append((p, what))


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def tlc(ctx, module, cfg, env=None, workers="8", extra=(), timeout=3000, name=None, heap="12g"):
    """Runs TLC; returns (exit code, output, number of distinct states)."""
    e = dict(os.environ)
    e.update(env or {})
    meta = ctx.path("meta-" + (name or module))
    tmp = ctx.path("tmp-" + (name or module))
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC",
           "-workers", workers, "-metadir", meta, "-config", cfg, "-noGenerateSpecTE"] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    with open(ctx.path("tlc-%s.log" % (name or module)), "w") as f:
        f.write(r.stdout)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    if m:
        with LOCK:
            ctx.transitions += int(m[-1][0])
            ctx.states += int(m[-1][1])
    return r.returncode, r.stdout, (int(m[-1][1]) if m else None)


def record(ctx, prop, inputs, out):
    """Lets the harness run the real code on the inputs. Returns None or a violation payload."""
    if not ctx.bins:
        return record_part(ctx, prop, inputs, out, "scratch")
    # the commands mostly wait: several at a time
    with open(inputs) as f:
        lines = [l for l in f if l.strip()]
    n = min(7, len(lines))
    parts = []
    for k in range(n):
        p = inputs + ".%d" % k
        with open(p, "w") as f:
            f.writelines(lines[k::n])
        parts.append((p, out + ".%d" % k, "scratch%d" % k))
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda a: record_part(ctx, prop, *a), parts))
    with open(out, "w") as f:
        for i, o, _ in parts:
            with open(o) as g:
                shutil.copyfileobj(g, f)
            os.remove(i)
            os.remove(o)
    return next((r for r in res if r), None)


def record_part(ctx, prop, inputs, out, scratch):
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    e.pop("RUST_LOG", None)
    e["CASE_LIMIT"] = "120"
    e["RECORD_BUDGET"] = "3000" if ctx.thorough else "300"
    e["BINS"] = ctx.bins or ""
    e["SCRATCH"] = ctx.path(scratch)
    r = subprocess.run([ctx.harness, "record", prop, inputs, out], env=e, preexec_fn=limits,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    cur = out + ".cur"
    if r.returncode == 0:
        return None
    if r.returncode == 3:  # watchdog: the last line holds the case that did not return
        with open(out) as f:
            last = f.read().splitlines()[-1]
        return ("call does not return", json.loads(last))
    if os.path.exists(cur) and (r.returncode < 0 or r.returncode >= 128):
        with open(cur) as f:
            return ("process died (%d) %s" % (r.returncode, r.stdout[-300:]), json.loads(f.read()))
    raise ToolError("harness failed (%d): %s" % (r.returncode, r.stdout[-2000:]))


def trace_stage(ctx, prop, module, inputs_file, name, cfg="Trace.cfg"):
    """Record the real code on the inputs, then check every recorded case against the spec."""
    out = ctx.path("trace-%s.ndjson" % name)
    v = record(ctx, prop, inputs_file, out)
    missing = sum(1 for l in open(inputs_file) if l.strip()) - sum(1 for l in open(out) if l.strip())
    if missing:
        ctx.detail["inputs_not_run"] = missing
    if v:
        ctx.violation(name, v[0], v[1])
        return False
    return validate(ctx, module, out, name, cfg)


CHUNK_BYTES = 8 << 20
CHUNK_CASES = 4000


def chunks(path):
    """Splits a trace file into pieces TLC digests well."""
    res, cur, size = [], [], 0
    with open(path) as f:
        for l in f:
            if not l.strip():
                continue
            cur.append(l)
            size += len(l)
            if size > CHUNK_BYTES or len(cur) >= CHUNK_CASES:
                res.append(cur)
                cur, size = [], 0
    if cur:
        res.append(cur)
    return res


def data_error(o):
    """The specification could not even be evaluated on a recorded value (a value of another type, a
    missing field, an index out of range). The specifications evaluate on everything the unchanged code
    records, so such a value is one they do not allow. Resource problems are not among these."""
    return ("TLC was evaluating the nested" in o and "up to this point is" in o
            and not re.search("OutOfMemory|StackOverflow|ndDeserialize|Java heap", o))


def validate(ctx, module, out, name, cfg="Trace.cfg"):
    """Is every recorded case a behaviour of the trace specification?"""
    parts = chunks(out)
    if not parts:
        raise ToolError("empty trace " + name)
    fams = ctx.detail.setdefault("cases_by_family", {})
    ops = ctx.detail.setdefault("events_by_kind", {})

    def one(k):
        lines = parts[k]
        nm = "%s-%d" % (name, k)
        p = ctx.path("part-%s.ndjson" % nm)
        expected = 0
        with open(p, "w") as f:
            for l in lines:
                f.write(l)
        for l in lines:
            d = json.loads(l)
            expected += len(d["ev"]) + 2
            with LOCK:
                fams[d.get("fam", "-")] = fams.get(d.get("fam", "-"), 0) + 1
                for x in d["ev"]:
                    ops[x["op"]] = ops.get(x["op"], 0) + 1
        par = min(4, len(parts))
        rc, o, distinct = tlc(ctx, module, cfg, env={"TRACE_FILE": p}, name=nm,
                              workers=str(8 // par), heap="4g" if par > 1 else "8g")
        os.remove(p)
        return rc, o, distinct, expected

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        results = list(ex.map(one, range(len(parts))))
    bad = None
    for k, (rc, o, distinct, expected) in enumerate(results):
        lines = parts[k]
        if rc == 0:
            if distinct != expected:
                raise ToolError("%s: not all events were consumed: %s of %s states" % (name, distinct, expected))
            ctx.traces += len(lines)
            j = len(lines) // 2
            if len(ctx.samples) < 6 and len(lines[j]) < 4000:
                ctx.samples.append(json.loads(lines[j]))
        elif rc in (11, 12, 13) or (rc == 75 and data_error(o)):
            bad = bad or (k, o)
        else:
            raise ToolError("TLC exit %d on %s:\n%s" % (rc, module, o[-3000:]))
    if bad is None:
        return True
    k, o = bad
    cs = re.findall(r"^/\\ c = (\d+)", o, re.M)
    is_ = re.findall(r"^/\\ i = (\d+)", o, re.M)
    if not cs:
        raise ToolError("cannot read TLC's counterexample:\n" + o[-3000:])
    case = json.loads(parts[k][int(cs[-1]) - 1])
    j = int(is_[-1])
    e = case["ev"][j - 1] if 1 <= j <= len(case["ev"]) else None
    sts = o[o.rfind("/\\ st = "):][:1500]
    ctx.violation(name, "event %d of case %s is not allowed by %s: %s; spec state: %s" % (
        j, case.get("id"), module, json.dumps(e)[:600], sts.split("\n\n")[0][:900]), case)
    return False


def model_stage(ctx, module, cfg, name=None, extra=(), env=None, workers="8"):
    """Checks the specification itself (design level), no code involved."""
    rc, o, distinct = tlc(ctx, module, cfg, extra=extra, env=env, name=name or cfg, workers=workers)
    if rc != 0:
        raise ToolError("model check of %s/%s failed (%d):\n%s" % (module, cfg, rc, o[-3000:]))
    ctx.detail.setdefault("model_checked", {})[name or cfg] = distinct
    return o


def histories(ctx, module, cfg, sampled=None):
    """Behaviours enumerated by TLC (or `sampled` random ones), printed as HIST <json> lines; returns a file with one per line."""
    extra = ["-simulate", "num=%d" % sampled, "-depth", "60", "-seed", str(ctx.seed)] if sampled else []
    o = model_stage(ctx, module, cfg, workers="1", extra=extra)
    hs = [json.loads('"%s"' % l[6:-1]) for l in o.splitlines() if l.startswith('"HIST ')]
    p = ctx.path("histories-%s.ndjson" % cfg)
    with open(p, "w") as f:
        f.write("\n".join(hs) + "\n")
    if not hs:
        raise ToolError("no histories from " + module)
    ctx.detail.setdefault("behaviours_generated_by_tlc", {})[cfg] = len(hs)
    return p


def gen_inputs(ctx, prop, name="in", env=None):
    p = ctx.path("inputs-%s.ndjson" % name)
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run([ctx.harness, "inputs", prop, str(ctx.seed), ctx.tier, p], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("input generation failed: " + r.stdout[-2000:])
    return p


def known_ids(prop):
    ids = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            ids.append((m.group(2), m.group(3).strip()))
    return ids


def main():
    args = sys.argv[1:]
    t0 = time.time()
    try:
        if args[0] == "build":
            build_harness()
            build_bins()
            print("built")
            return 0
        prop = args[0]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        chk = CHECKS[prop]
        ctx = Ctx(prop, seed, tier)
        ctx.harness = build_harness()
        if chk.get("bins"):
            ctx.bins = build_bins()
        if len(args) > 2 and args[1] == "--replay":
            case = json.load(open(args[2]))
            case.pop("ev", None)
            with open(ctx.path("inputs-replay.ndjson"), "w") as f:
                f.write(json.dumps(case) + "\n")
            m = chk["trace"]
            trace_stage(ctx, prop, m, ctx.path("inputs-replay.ndjson"), "replay")
        else:
            me = sys.modules[__name__]
            chk["run"](me, ctx)
    except ToolError as e:
        print("ERROR: %s" % e)
        return 2
    for kid, text in ctx.known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, kid, text))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": chk["level"],
        "coverage": dict(states=ctx.states, transitions=ctx.transitions,
                         traces_validated_against_impl=ctx.traces, samples=ctx.samples[:6], **ctx.detail),
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p, what in ctx.violations:
        print("%s" % what)
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if not ctx.violations:
        print("%s: held; %d states, %d traces validated, %.1f s" % (prop, ctx.states, ctx.traces, wall))
    return 1 if ctx.violations else 0


if __name__ == "__main__":
    sys.exit(main())
