"""I01: replays the telemetry of spec/Infer.tla into `weaver registry infer` over OTLP and compares the registry it writes."""
import random, re, signal, yaml
from . import core, otlp
from .core import weaver

class Loader(yaml.SafeLoader):
    """YAML 1.2 scalars, as weaver writes them."""
Loader.yaml_implicit_resolvers = {}
for tag, rx, first in (("bool", r"true|false", "tf"), ("null", r"null|~|", "n~"), ("int", r"[-+]?[0-9]+", "-+0123456789"), ("float", r"[-+]?(\.[0-9]+|[0-9]+(\.[0-9]*)?)([eE][-+]?[0-9]+)?", "-+.0123456789")):
    Loader.add_implicit_resolver(f"tag:yaml.org,2002:{tag}", re.compile(f"^(?:{rx})$"), list(first))

STRINGS = ["", "v", "yes", "true", "null", "1", "1.0", "a: b", "- x", "ünïcödé → ✓", "two\nlines", " lead", "#c", "'q\"", "{{ x }}", "x" * 300, "\t", "0o7", "~", "[1, 2]", "%", "&a", "*", "NO", "1e3", "a\\b", "\x00\x07", "2020-01-01"]
KEYS = ["service.name", "http.request.method", "a", "A", "a.b", "a-b", "key with spaces", "", "ключ", "on", "a.b.c", "1", "true", "a_b", "x" * 120]
SIGNALS = ["GET /users/{id}", "http.server.duration", "e", "E", "SELECT db", "device.app", "yes", "", "naïve", "a.b", "a b", "λ", "-", "a:b", "'"]
UNITS = ["", "s", "{request}"]

class World:
    def __init__(s, key):
        r = s.rng = random.Random(key)
        s.keys = r.sample(KEYS, 12); s.names = r.sample(SIGNALS, 8); s.strings = r.sample(STRINGS, 24); s.scale = r.choice([1, 1, 1000, 1 << 40]) * r.choice([1, -1])
    def key(s, a): return s.keys[a - 1]
    # names of log events: the one without a name is 0; spans, metrics and span events may be called ""
    def name(s, n): return s.names[n - 1]
    def log(s, n): return "" if n == 0 else s.names[n - 1] or "no name"
    def scalar(s, c, v):
        if c == "str": return s.strings[v]
        if c == "bool": return bool(v)
        return v // 2 * s.scale if c == "int" else v / 2 * s.scale + 0.0
    def value(s, o):
        c, v = o["c"], o["v"]; r = s.rng
        if c in ("str", "int", "dbl", "bool"): return s.scalar(c, v)
        if c in ("strs", "ints", "dbls", "bools"): return [s.scalar(c[:-1], r.randrange(2) * 2) if c != "bools" else r.random() < .5 for _ in range(r.randrange(1, 4))]
        if c == "mixed": return r.choice([["x", 1], [1, True], [True, "x", 2.5]])
        return dict(empty=[], kv=otlp.Kv(x=1, y="z"), bytes=otlp.Bytes(b"xyz"), unset=otlp.Unset, novalue=None)[c]
    def attrs(s, obs): return [(s.key(o["a"]), s.value(o)) for o in obs]
    def item(s, kind, it):
        r = s.rng
        if kind == "traces":
            d = dict(name=s.name(it["n"]), attributes=s.attrs(it["at"]), events=[dict(name=s.log(e["n"]), attributes=s.attrs(e["at"])) for e in it["ev"]])
            if it["k"] != "unset": d["kind"] = it["k"]
            if r.random() < .3: d["links"] = [dict(attributes=[("only.on.link", "x")])]
            d["more"] = r.random() < .3
            if r.random() < .3: d["status"] = (r.randrange(3), r.choice(["", "boom"]))
            return d
        if kind == "metrics":
            pts = [[]]
            for a in s.attrs(it["at"]):
                if r.random() < .4: pts.append([])
                pts[-1].append(a)
            ex = lambda: [dict(attributes=[("only.on.exemplar", 1)])] if r.random() < .3 else []
            return dict(name=s.name(it["n"]), more=r.random() < .3, instrument=it["k"], unit=UNITS[it["u"]], points=[dict(attributes=p, exemplars=ex(), value=r.choice([1, 2.5]), count=r.choice([2, 2, 0]), flags=r.choice([0, 0, 1])) for p in pts] if it["at"] or r.random() < .5 else [])
        if kind == "logs":
            d = dict(event_name=s.log(it["n"]), attributes=s.attrs(it["at"]))
            d["more"] = r.random() < .3
            if r.random() < .4: d["body"] = r.choice(["body", otlp.Kv(only_in_body=1), ["x"]])
            if r.random() < .4: d["severity_text"], d["severity"] = "WARN", 13
            return d
        return dict(attributes=s.attrs(it["at"]))
    def request(s, r):
        q = s.rng
        return dict(kind=r["kind"], groups=[dict(resource=s.attrs(g["res"]) if g["has"] else None,
          scopes=[dict(scope=q.choice([None, dict(name="lib", version="1", attributes=[("only.on.scope", "x")])]), schema_url=q.choice(["", "https://x.io/1"]), items=[s.item(r["kind"], it) for it in sc]) for sc in g["scopes"]]) for g in r["groups"]])

def seq(x, base): return {int(k): v for k, v in x.items()} if isinstance(x, dict) else dict(enumerate(x, base))
def wanted(w, out):
    at = []
    for a, t in seq(out["types"], 1).items():
        if t == "": continue
        e = seq(out["ex"], 1)[a]; vals = [w.scalar(e["c"], v) for v in e["v"]]
        at.append(dict(key=w.key(a), type=t, examples=None if not vals else vals[0] if len(vals) == 1 else vals))
    refs = lambda s: sorted(w.key(a) for a in s["at"])
    sig = lambda kind: [(n, x) for n, x in seq(out[kind], 0).items() if x["on"]]
    return dict(attributes=sorted(at, key=lambda x: x["key"]),
      spans=sorted((dict(type=w.name(n), kind=x["k"], attributes=refs(x)) for n, x in sig("span")), key=lambda x: x["type"]),
      metrics=sorted((dict(name=w.name(n), instrument=x["k"], unit=UNITS[x["u"]], attributes=refs(x)) for n, x in sig("metric")), key=lambda x: x["name"]),
      events=sorted((dict(name=w.log(n), attributes=refs(x)) for n, x in sig("event")), key=lambda x: x["name"]))
def found(y):
    refs = lambda s: [x["ref"] for x in s.get("attributes") or []]
    ty = lambda t: t
    return dict(attributes=[dict(key=a["key"], type=ty(a["type"]), examples=a.get("examples")) for a in y.get("attributes") or []],
      spans=[dict(type=x["type"], kind=x["kind"], attributes=refs(x)) for x in y.get("spans") or []],
      metrics=[dict(name=x["name"], instrument=x["instrument"], unit=x["unit"], attributes=refs(x)) for x in y.get("metrics") or []],
      events=[dict(name=x["name"], attributes=refs(x)) for x in y.get("events") or []])
def strict(x):
    """So that 1, 1.0 and true are told apart."""
    if isinstance(x, dict): return {k: strict(v) for k, v in x.items()}
    if isinstance(x, list): return [strict(v) for v in x]
    return f"{type(x).__name__} {x!r}"

def split(r):
    """The same telemetry, one item per request (a resource first)."""
    for g in r["groups"]:
        yield dict(kind=r["kind"], groups=[dict(resource=g["resource"], scopes=[])])
        for sc in g["scopes"]:
            for it in sc["items"]: yield dict(kind=r["kind"], groups=[dict(resource=None, scopes=[dict(sc, items=[it])])])

def infer(d, out, reqs, how, rng):
    for attempt in range(3):
        L = otlp.Listener(lambda g, a: ["registry", "infer", "--grpc-port", g, "--admin-port", a, "--inactivity-timeout", 1 if how == "idle" else 0, "-o", out], d)
        try:
            if not L.ready():
                r = L.end()
                if "in use" in r.out + r.err: continue
                return None, r, ["does not start: " + r.err[-300:]]
            conns = [otlp.Conn(L.grpc) for _ in range(rng.choice([1, 2]))]
            for k, q in enumerate(reqs):
                if not rng.choice(conns).export(q): return None, None, [f"export {k} is not acknowledged"]
            if how == "stop": L.stop()
            elif how in ("INT", "HUP"): L.p.send_signal(getattr(signal, "SIG" + how))
            r = L.end()
            for c in conns: c.close()
            return (d / out / "registry.yaml"), r, []
        finally: L.kill()
    raise otlp.Infra("no port")

def run_case(S, i, case, tag=""):
    w = World(f"{core.SEED}-{tag}-{i}"); rng = w.rng; d = S.dir(f"{tag}{i}")
    try:
        reqs = [w.request(r) for r in case["reqs"]]; want = wanted(w, case["out"]); bad = []
        how = rng.choice(["stop"] * 5 + ["INT", "HUP"] * 2 + ["idle"])
        runs = [(reqs, how)]
        if i % 3 == 0: runs.append(([x for r in reqs for x in split(r)], "stop"))
        for k, (rs, how) in enumerate(runs):
            f, r, bad = infer(d, f"out{k}/deep", rs, how, rng)
            if bad: break
            if r.rc != 0: bad = [f"exit code {r.rc} after {how}: {r.err[-300:]}"]; break
            nothing = not any(want.values())
            if nothing or not f.exists():
                if nothing != (not f.exists()): bad = [f"registry written: {f.exists()}, expected: {not nothing}"]; break
                continue
            y = yaml.load(f.read_text(), Loader)
            if y.get("file_format") != "definition/2": bad.append(f"file_format {y.get('file_format')}")
            bad += core.diff("registry", strict(want), strict(found(y)))
            if bad: bad = [f"run {k} (stopped by {how}): {x}" for x in bad]; break
        if bad: return dict(case=case, diff=bad, requests=reqs)
    finally: core.shutil.rmtree(d, ignore_errors=True)

def check_I01(c):
    r = core.tlc("Infer", "Infer.mc.cfg", consts={"Requests": 2, "Attrs": 2, "Names": 2}, workers=8, timeout=1800); c.model(r, "two observations anywhere, 2 attributes")
    r = core.tlc("Infer", "Infer.mc.cfg", consts={"Requests": 4 if c.thorough else 3, "Attrs": 1, "Names": 1}, workers=8, timeout=3000, mem="12g"); c.model(r, "observations of one attribute anywhere")
    k = 10 if c.thorough else 1; cases = []
    for at, names, vals, reqs, n in ((6, 4, 4, 8, 350), (2, 2, 6, 14, 200), (12, 8, 3, 20, 80)):
        r = core.tlc_many("Infer", "Infer.gen.cfg", n * k, procs=8, seed=core.SEED + at, consts={"Attrs": at, "Names": names, "Vals": vals, "Requests": reqs}, depth=2500)
        c.generated(r, f"random, up to {reqs} requests over {at} attributes"); cases += r.cases
    with core.Scratch() as S: c.replay(cases, lambda i, x: run_case(S, i, x), "telemetry sent to registry infer")
    c.extra["requests"] = sum(len(x["reqs"]) for x in cases)
