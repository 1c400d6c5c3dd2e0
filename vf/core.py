"""Shared machinery: building weaver from /repo, running TLC, running weaver, evidence, verdicts."""
import concurrent.futures as cf, hashlib, json, os, pathlib, re, shutil, subprocess, sys, tempfile, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
TARGET = REPO / "target"
WEAVER = TARGET / "debug" / "weaver"
OUT = VERIF / "out"
SPEC = VERIF / "spec"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = 8

ENV = dict(os.environ, HOME="/root",
  PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
  RUSTUP_TOOLCHAIN="1.96.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
  CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
ENV.pop("CARGO_TARGET_DIR", None)

class ToolError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- build
def _unit_hashes():
    """Content hash per crate (and the root package) of everything a build reads."""
    h = {}
    def add(name, root, subs):
        d = hashlib.sha256()
        for sub in subs:
            p = root / sub
            files = [p] if p.is_file() else sorted(x for x in p.rglob("*") if x.is_file()) if p.is_dir() else []
            for f in files:
                if "observed_output" in f.parts or "node_modules" in f.parts: continue
                d.update(str(f.relative_to(root)).encode()); d.update(b"\0"); d.update(f.read_bytes())
        h[name] = d.hexdigest()
    for c in sorted((REPO / "crates").iterdir()):
        if (c / "Cargo.toml").is_file():
            subs = [x.name for x in sorted(c.iterdir()) if x.name not in ("tests", "target", "observed_output")]
            add(c.name, c, subs)
    add("weaver", REPO, ["src", "defaults", "build.rs", "Cargo.toml", "Cargo.lock", "ui/index.html"])
    return h

def build(bins=("weaver",)):
    """cargo build of /repo's working tree; freshness is judged by content as well as by mtime."""
    t0 = time.time()
    (REPO / "ui" / "dist").mkdir(parents=True, exist_ok=True)
    now = _unit_hashes()
    stamp = TARGET / "verif-src-hashes.json"
    ref = stamp if stamp.is_file() else VERIF / "vf" / "base-src-hashes.json"
    old = json.loads(ref.read_text()) if ref.is_file() else {}
    changed = [n for n in now if old.get(n) != now[n]]
    if changed:
        fp = TARGET / "debug" / ".fingerprint"
        if fp.is_dir():
            for d in fp.iterdir():
                if re.sub(r"-[0-9a-f]{16}$", "", d.name) in changed:
                    shutil.rmtree(d, ignore_errors=True)
    # The same unit graph as /opt/vp/build.sh (feature unification), so that its third-party artefacts are reused;
    # an integration test of the root package needs, and so builds, the weaver binary.
    for cmd in (["cargo", "test", "--workspace", "--no-run", "--offline", "--locked", "--test", "registry_generate"],
                ["cargo", "build", "--offline", "--locked", "--bin", "weaver"]):
        r = subprocess.run(cmd, cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: break
    if r.returncode != 0 or not WEAVER.is_file():
        raise ToolError("build of /repo failed:\n" + r.stdout[-3000:])
    stamp.write_text(json.dumps(now))
    log(f"[build] {time.time()-t0:.1f}s, changed units: {changed}")

# ---------------------------------------------------------------- TLC
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def _classpath():
    w = shutil.which("tlc", path="/usr/local/bin:/usr/bin:/opt/veriftools/bin:" + ENV["PATH"])
    txt = pathlib.Path(w).read_text() if w else ""
    m = re.search(r"-cp\s+(\S+)", txt)
    return m.group(1).strip('"') if m else JARS

class TlcResult:
    def __init__(s): s.states = s.distinct = 0; s.cases = []; s.text = ""; s.violated = None; s.wall = 0.0; s.depth = 0; s.cmd = ""

def tlc(module, cfg, consts=None, simulate=None, depth=100, seed=None, workers=4, timeout=600, deadlock=False, extra=(), mem="3g", env=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; consts adds constant overrides to a copy of the cfg.
    Returns states explored and the cases printed by the spec (lines  "@@{json}" )."""
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="vftlc-"))
    try:
        for f in SPEC.glob("*.tla"): shutil.copy(f, tmp)
        text = (SPEC / cfg).read_text()
        if consts: text += "\nCONSTANTS\n" + "\n".join(f"  {k} = {v}" for k, v in consts.items()) + "\n"
        (tmp / "run.cfg").write_text(text)
        cmd = ["java", f"-Xmx{mem}", "-Xss32m", "-XX:+UseParallelGC", "-cp", _classpath(), "tlc2.TLC", "-metadir", str(tmp / "meta"),
               "-noGenerateSpecTE", "-config", "run.cfg", "-workers", str(workers)]
        if not deadlock: cmd.append("-deadlock")
        if simulate: cmd += ["-simulate", f"num={simulate}", "-depth", str(depth)]
        if seed is not None: cmd += ["-seed", str(seed)]
        cmd += list(extra) + [module + ".tla"]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=dict(ENV, **(env or {})))
        except subprocess.TimeoutExpired as e:
            raise ToolError(f"TLC {module} {cfg} timed out after {timeout}s")
        r = TlcResult(); r.wall = time.time() - t0; r.cmd = " ".join(cmd[5:])
        seen = set(); rest = []
        for line in p.stdout.splitlines():
            if line.startswith('"@@'):
                if line not in seen:
                    seen.add(line); r.cases.append(json.loads(json.loads(line)[2:]))
            else: rest.append(line)
        r.text = "\n".join(rest)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.text)
        if m: r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"The number of states generated: ([\d,]+)", r.text)
        if m: r.states = int(m[-1].replace(",", ""))
        m = re.search(r"(Invariant \S+ is violated|Action property \S+ is violated|Temporal properties were violated|The postcondition .* is violated|is violated)", r.text)
        if m: r.violated = m.group(1)
        ok = ("No error has been found" in r.text) or (simulate and "Error:" not in r.text)
        if not ok and not r.violated:
            raise ToolError(f"TLC {module} {cfg} failed (exit {p.returncode}):\n" + r.text[r.text.find("Error:"):][:1500] + "\n...\n" + r.text[-1500:])
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def tlc_many(module, cfg, total, procs=4, seed=SEED, **kw):
    """Parallel -simulate runs with distinct seeds; merged, deduplicated cases."""
    per = max(1, total // procs)
    with cf.ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(lambda i: tlc(module, cfg, simulate=per, seed=seed * 1000 + i * 7919 + 1, workers=1, **kw), range(procs)))
    out = TlcResult(); seen = set()
    for r in rs:
        out.states += r.states; out.wall = max(out.wall, r.wall); out.text += r.text; out.violated = out.violated or r.violated; out.cmd = r.cmd
        for c in r.cases:
            k = json.dumps(c, sort_keys=True)
            if k not in seen: seen.add(k); out.cases.append(c)
    return out

# ---------------------------------------------------------------- scratch + weaver
class Scratch:
    """A scratch directory (tmpfs when there is one), removed at exit."""
    def __init__(s):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        s.path = pathlib.Path(tempfile.mkdtemp(prefix="vf-", dir=base)); s.n = 0
    def __enter__(s): return s
    def __exit__(s, *a): shutil.rmtree(s.path, ignore_errors=True)
    def dir(s, name):
        d = s.path / name; d.mkdir(parents=True, exist_ok=True); return d

def write_tree(root, files):
    """files: relative path -> str, bytes or json-able (JSON is valid YAML)."""
    root = pathlib.Path(root); root.mkdir(parents=True, exist_ok=True)
    for k, v in files.items():
        p = root / k; p.parent.mkdir(parents=True, exist_ok=True)
        if isinstance(v, bytes): p.write_bytes(v)
        else: p.write_text(v if isinstance(v, str) else json.dumps(v))

class Run:
    def __init__(s, rc, out, err): s.rc, s.out, s.err = rc, out, err
    @property
    def crashed(s): return s.rc is None or s.rc < 0 or s.rc == 101 or "panicked at" in s.err

RUN_ENV = {"HOME": "/nonexistent-home", "PATH": "/usr/bin:/bin", "NO_COLOR": "1", "RUST_BACKTRACE": "0"}
def weaver(args, cwd, env=None, stdin=None, timeout=60):
    e = dict(RUN_ENV, HOME=str(cwd), TMPDIR=str(cwd)); e.update(env or {})
    try:
        p = subprocess.run([str(WEAVER), *map(str, args)], cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        return Run(None, (ex.stdout or b"").decode("utf8", "replace"), (ex.stderr or b"").decode("utf8", "replace") + "\n[timeout]")
    return Run(p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"))

def parallel(fn, items, n=NCPU, stop_after=5):
    """Runs fn over items in threads (fn spends its time in child processes). fn returns None or a mismatch.
    Stops early once `stop_after` mismatches are known."""
    bad = []; done = 0
    it = iter(enumerate(items))
    with cf.ThreadPoolExecutor(n) as ex:
        pend = {}
        def feed():
            while len(pend) < 4 * n:
                try: i, c = next(it)
                except StopIteration: return
                pend[ex.submit(fn, i, c)] = i
        feed()
        while pend:
            fin, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in fin:
                pend.pop(f); done += 1
                r = f.result()
                if r is not None: bad.append(r)
            if len(bad) < stop_after: feed()
    return done, bad

# ---------------------------------------------------------------- verdict
class Check:
    """Collects what one check explored and ends it with the verdict."""
    def __init__(s, prop, tier, level):
        s.prop, s.tier, s.level = prop, tier, level
        s.t0 = time.time(); s.states = s.transitions = s.traces = 0
        s.samples = []; s.bad = []; s.assumptions = []; s.extra = {}; s.model_bad = []
        s.known_hits = {}
    @property
    def thorough(s): return s.tier == "thorough"
    def model(s, r, what):
        """Result of an exhaustive TLC run."""
        s.states += r.distinct or r.states; s.transitions += r.states
        s.extra.setdefault("tlc_runs", []).append(dict(what=what, states=r.states, distinct=r.distinct, wall_s=round(r.wall, 1)))
        if r.violated: raise ToolError(f"the specification itself violates {r.violated} ({what}):\n{r.text[-3000:]}")
    def generated(s, r, what):
        s.transitions += r.states; s.states += len(r.cases)
        s.extra.setdefault("tlc_runs", []).append(dict(what=what, states=r.states, cases=len(r.cases), wall_s=round(r.wall, 1)))
        if r.violated: raise ToolError(f"the specification itself violates {r.violated} ({what}):\n{r.text[-3000:]}")
    def replay(s, cases, fn, what, n=NCPU, nontrivial=None):
        t0 = time.time()
        done, bad = parallel(fn, cases, n)
        s.traces += done
        s.bad += [dict(what=what, **b) for b in bad]
        s.extra.setdefault("replays", []).append(dict(what=what, cases=done, mismatches=len(bad), wall_s=round(time.time() - t0, 1)))
        if cases and len(s.samples) < 6: s.samples.append(dict(what=what, case=cases[0] if not callable(cases) else None))
        log(f"[{s.prop}] {what}: {done} cases, {len(bad)} mismatches, {time.time()-t0:.1f}s")
    def finish(s):
        known = load_known(s.prop)
        unknown = []
        for b in s.bad:
            k = next((k for k in known if k["key"] and k["key"] == b.get("finding")), None)
            if k: s.known_hits[k["key"]] = k
            else: unknown.append(b)
        if s.traces == 0 and not unknown: raise ToolError("nothing was validated")
        (VERIF / "evidence").mkdir(exist_ok=True)
        cov = dict(states=s.states, transitions=s.transitions, traces_validated_against_impl=s.traces,
                   samples=[trim(x) for x in s.samples] or ["-"], **s.extra)
        if s.level != "model_checking":
            cov = dict(evaluations=s.traces, distinct_nontrivial=s.traces, rule=s.extra.get("rule", ""), **cov)
        ev = dict(property=s.prop, tier=s.tier, seed=SEED, level=s.level, coverage=cov,
                  assumptions=s.assumptions, wall_s=round(time.time() - s.t0, 1), violations=len(unknown))
        (VERIF / "evidence" / f"{s.prop}.json").write_text(json.dumps(ev, indent=1))
        for k in s.known_hits.values(): print(f"KNOWN-FINDING: property={s.prop} {k['text']}")
        if unknown:
            d = OUT / s.prop; d.mkdir(parents=True, exist_ok=True)
            for i, b in enumerate(unknown[:5]):
                p = d / f"violation-{i}.json"; p.write_text(json.dumps(b, indent=1, default=str))
                log(f"--- mismatch in {b.get('what')}: {json.dumps(b.get('diff', b), default=str)[:1500]}")
                print(f"VIOLATION property={s.prop} replay={p}", flush=True)
            return 1
        print(f"OK property={s.prop} traces={s.traces} states={s.states} wall={time.time()-s.t0:.0f}s", flush=True)
        return 0

def trim(x, n=1500):
    t = json.dumps(x, default=str)
    return x if len(t) <= n else t[:n] + "..."

def load_known(prop):
    """known_findings.jsonl: {"property","status":"known"|"fixed","key",...}; fixed entries suppress nothing."""
    f = VERIF / "known_findings.jsonl"
    if not f.is_file(): return []
    return [k for k in map(json.loads, filter(str.strip, f.read_text().splitlines())) if k["property"] == prop and k.get("status") == "known"]

def diff(path, exp, got, out=None, limit=8):
    """Structural difference between expected and observed values."""
    out = [] if out is None else out
    if len(out) >= limit: return out
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in sorted(set(exp) | set(got), key=str):
            if k not in got: out.append(f"{path}.{k}: expected {exp[k]!r}, absent")
            elif k not in exp: out.append(f"{path}.{k}: unexpected {got[k]!r}")
            else: diff(f"{path}.{k}", exp[k], got[k], out, limit)
    elif isinstance(exp, list) and isinstance(got, list) and len(exp) == len(got):
        for i, (a, b) in enumerate(zip(exp, got)): diff(f"{path}[{i}]", a, b, out, limit)
    elif exp != got: out.append(f"{path}: expected {exp!r}, got {got!r}")
    return out[:limit]

# ---------------------------------------------------------------- diagnostics
def parse_diag(text):
    """The JSON list of diagnostics in a stream ([] when there is none)."""
    i = text.find("[\n")
    if i < 0: i = text.find("[")
    while i >= 0:
        try: return json.JSONDecoder().raw_decode(text[i:])[0]
        except ValueError: i = text.find("[", i + 1)
    return []

def find_errors(x, names, out=None):
    """All (name, payload) of the given error names anywhere in a diagnostics value."""
    out = [] if out is None else out
    if isinstance(x, dict):
        for k, v in x.items():
            if k in names: out.append((k, v))
            if k != "diagnostic": find_errors(v, names, out)
    elif isinstance(x, list):
        for v in x: find_errors(v, names, out)
    return out
