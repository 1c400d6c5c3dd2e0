"""L01-L06: replays behaviours of spec/LiveCheck.tla into `weaver registry live-check`."""
import json, random, re
from collections import Counter
from . import core
from .core import weaver, write_tree

VAL = {"s1": "m1", "s2": "zz", "sempty": "", "i1": 1, "i2": 7, "neg": -5, "big": 18446744073709551615, "d": 1.5, "d1": 1.0, "b": True, "ss": ["m1", "q"], "sn": [None, "m1"],
       "is": [1, 2], "in": [3, None, 4], "ds": [1.5, 2.5], "id": [1, 2.5], "di": [2.5, 1], "bs": [True, None], "empty": [], "nulls": [None, None],
       "mixed": [1, "x", True], "obj": {"k": 1}, "null": None}
RL = {"required": "required", "recommended": "recommended", "recommended_if": {"recommended": "when"}, "opt_in": "opt_in", "opt_in_if": {"opt_in": "when"},
      "conditionally_required": {"conditionally_required": "when"}}
DEP = {"renamed": {"reason": "renamed", "renamed_to": "other.name", "note": "n"}, "obsoleted": {"reason": "obsoleted", "note": "n"}, "uncategorized": {"reason": "uncategorized", "note": "n"}}
LV = {"information": 1, "improvement": 2, "violation": 3}

def nm(n): return ".".join(n)
def ty(t):
    if t["c"] == "p": return t["t"]
    if t["c"] == "t": return f"template[{t['t']}]"
    vals = ["m1", "m2"] if t["t"] == "string" else [1, 2]
    return {"members": [dict(id=f"v{i}", value=v, brief="b", stability="stable") for i, v in enumerate(vals)]}
def example(t):
    return {"boolean": None, "int": 3, "double": 2.5, "string": "ex", "any": None, "string[]": ["a", "b"], "int[]": [1, 2], "double[]": [1.5, 2.5], "boolean[]": None}[t["t"]]
def dep(d, o):
    if o["dep"] != "-": d["deprecated"] = DEP[o["dep"]]
    return d
def assoc(x): return x["e"] if x["op"] == "ref" else {x["op"]: [assoc(y) for y in x["l"]]}

def registry(reg):
    attrs = []
    for n, a in reg["attrs"]:
        d = dep(dict(id=nm(n), type=ty(a["ty"]), brief="b", stability=a["stab"]), a)
        if a["ty"]["c"] != "e" and example(a["ty"]) is not None:
            d["examples"] = [example(a["ty"])] if a["ty"]["t"].endswith("[]") else [example(a["ty"])]
        attrs.append(d)
    refs = lambda l: [dict(ref=nm(x["n"]), requirement_level=RL[x["rl"]]) for x in l]
    gs = [dict(id="registry.all", type="attribute_group", brief="b", stability="stable", attributes=attrs)]
    for e, l in reg["ents"]:
        gs.append(dict(id="entity." + e, type="entity", name=e, brief="b", stability="stable", attributes=[dict(r, role="descriptive" if i % 2 else "identifying") for i, r in enumerate(refs(l))]))
    for n, m in reg["mets"]:
        d = dep(dict(id="metric." + nm(n), type="metric", metric_name=nm(n), brief="b", stability=m["stab"], instrument=m["instr"], unit=m["unit"], attributes=refs(m["attrs"])), m)
        if m["assoc"]: d["entity_associations"] = [assoc(x) for x in m["assoc"]]
        gs.append(d)
    for n, m in reg["evts"]:
        d = dep(dict(id="event." + nm(n), type="event", name=nm(n), brief="b", stability=m["stab"], attributes=refs(m["attrs"])), m)
        if m["assoc"]: d["entity_associations"] = [assoc(x) for x in m["assoc"]]
        gs.append(d)
    return gs

def attr(a):
    d = dict(name=nm(a["n"]))
    if a["v"] != "none": d["value"] = VAL[a["v"]]
    if a["t"] != "infer": d["type"] = a["t"]
    return d
def attrs(l): return [attr(a) for a in l]
def sample(s):
    k = s["k"]
    if k == "attribute": return {k: attr(s["attrs"][0])}
    d = dict(attributes=attrs(s["attrs"])) if "attrs" in s else {}
    if k in ("instrumentation_scope", "span_event", "span"): d["name"] = nm(s["name"])
    if k == "profile": d["original_payload_format"] = "pprof"
    if k == "log": d.update(event_name=nm(s["name"]), severity_number=9, severity_text="INFO", body="x")
    if k == "span":
        d.update(kind="internal", span_events=[dict(name=nm(e["name"]), attributes=attrs(e["attrs"])) for e in s["events"]],
                 span_links=[dict(attributes=attrs(l)) for l in s["links"]])
    if k == "metric":
        def point(p):
            q = dict(attributes=attrs(p["attrs"]), exemplars=[dict(filtered_attributes=attrs(x), value=1, timestamp="t", span_id="s", trace_id="t") for x in p["exemplars"]])
            q.update(dict(value=1) if s["ptype"] == "number" else dict(count=1, sum=1.0, bucket_counts=[1], explicit_bounds=[]))
            return q
        d.update(name=nm(s["name"]), instrument=s["instr"], unit=s["unit"], data_points=[point(p) for p in s["points"]])
    return {k: d}

def toml_val(v): return json.dumps(v)
def config(cfg):
    out = []
    def table(name, d):
        out.append(f"[[live-check.{name}]]"); out.extend(f"{k} = {toml_val(v)}" for k, v in d.items()); out.append("")
    glob = lambda g: ("*" if not g["p"] else nm(g["p"]) + ".*") if g["star"] else nm(g["p"])
    for o in cfg["over"]:
        d = dict(level=o["level"])
        if o["ids"]: d["ids"] = sorted(o["ids"])
        if o["st"] != "-": d["signal_type"] = o["st"]
        if o["names"]: d["sample_names"] = [glob(g) for g in o["names"]]
        table("finding_level_overrides", d)
    for f in cfg["filt"]:
        d = {}
        if f["ids"]: d["exclude"] = sorted(f["ids"])
        if f["min"] != "-": d["min_level"] = f["min"]
        if f["st"] != "-": d["signal_type"] = f["st"]
        if f["names"]: d["sample_names"] = [glob(g) for g in f["names"]]
        if f["ex"]: d["exclude_samples"] = [glob(g) for g in f["ex"]]
        if d: table("finding_filters", d)
    return "\n".join(out)

EMPTY_REGO = "package live_check_advice\n\nimport rego.v1\n\ndeny contains x if {\n\tfalse\n\tx := {}\n}\n"

# ---------------------------------------------------------------- observation
def findings(x):
    r = (x or {}).get("live_check_result")
    if r is None: return None
    return r["all_advice"]
def flatten(s):
    """Entities of an output sample, in the order of the specification: (type, name, findings, highest)."""
    (k, d), = s.items(); out = []
    def ent(t, name, x):
        r = x.get("live_check_result") or {}
        out.append(dict(type=t, name=name, f=r.get("all_advice", []), hi=r.get("highest_advice_level"), checked=bool(r)))
    def at(l):
        for a in l: ent("attribute", a["name"], a)
    if k == "attribute": at([d])
    elif k in ("resource", "profile", "span_link"): ent(k, "", d); at(d["attributes"])
    elif k in ("instrumentation_scope", "span_event"): ent(k, d["name"], d); at(d["attributes"])
    elif k == "log": ent(k, d["event_name"], d); at(d["attributes"])
    elif k == "span":
        ent(k, d["name"], d); at(d["attributes"])
        for e in d["span_events"]: ent("span_event", e["name"], e); at(e["attributes"])
        for e in d["span_links"]: ent("span_link", "", e); at(e["attributes"])
    elif k == "metric":
        ent(k, d["name"], d)
        for p in d.get("data_points") or []:
            ent("data_point", "", p); at(p["attributes"])
            for e in p.get("exemplars") or []: ent("exemplar", "", e); at(e["filtered_attributes"])
    return out

def documents(text, fmt):
    if fmt == "yaml":
        import yaml
        class L(yaml.SafeLoader): pass   # sample kinds are written as tags: "- !attribute {...}"
        L.add_multi_constructor("!", lambda ld, tag, node: {tag: ld.construct_mapping(node, deep=True)})
        return list(yaml.load_all(text, L))
    out = []; dec = json.JSONDecoder(); i = 0; text = text.strip()
    while i < len(text):
        v, j = dec.raw_decode(text, i); out.append(v); i = j
        while i < len(text) and text[i] in " \r\n\t": i += 1
    return out

class Obs: pass
def run(case, d, i, cfg=None, plain=False):
    """plain: one JSON report on stdout; otherwise format, streaming, input and output vary with the case number."""
    cfg = case["cfg"] if cfg is None else cfg
    rng = random.Random(i * 7919 + core.SEED)
    v2 = rng.random() < 0.5
    fmt = "json" if plain else rng.choice(["json", "json", "jsonl", "yaml"])
    nostream = True if plain else rng.random() < 0.5
    tofile = not plain and rng.random() < 0.25
    text = all(s["k"] == "attribute" and s["attrs"][0]["t"] == "infer" for s in case["samples"]) and not plain and rng.random() < 0.7
    stdin = rng.random() < 0.4
    if fmt == "yaml": nostream = True
    if text:
        data = "".join(nm(s["attrs"][0]["n"]) + ("" if s["attrs"][0]["v"] == "none" else "=" + (VAL[s["attrs"][0]["v"]] if isinstance(VAL[s["attrs"][0]["v"]], str) else json.dumps(VAL[s["attrs"][0]["v"]]))) + "\n" for s in case["samples"])
    else: data = json.dumps([sample(s) for s in case["samples"]])
    write_tree(d, {"reg/r.yaml": {"groups": registry(case["reg"])}, "in.dat": data, "c.toml": config(cfg)})
    args = ["registry", "live-check", "-r", "reg", "--input-format", "text" if text else "json", "--input-source", "stdin" if stdin else "in.dat",
            "--format", fmt, "--fail-on", cfg["fail"], "--config", "c.toml", "--quiet", "--skip-policies"]
    if v2: args.append("--v2")
    if nostream: args.append("--no-stream")
    if not cfg["stats"]: args.append("--no-stats")
    if tofile: args += ["--output", "out"]
    if not cfg["rego"]:
        write_tree(d, {"nop/p.rego": EMPTY_REGO}); args += ["--advice-policies", "nop"]
    r = weaver(args, d, stdin=data.encode() if stdin else b"")
    o = Obs(); o.run = r; o.args = args; o.v2 = v2
    o.err = None; o.samples = []; o.stats = None
    if r.crashed or r.rc not in (0, 1): o.err = f"exit {r.rc}: {r.err[-600:]}"; return o
    txt = r.out
    if tofile:
        fs = sorted((d / "out").rglob("*")) if (d / "out").exists() else []
        fs = [f for f in fs if f.is_file()]
        if len(fs) != 1: o.err = f"expected one report file, found {[str(f) for f in fs]}"; return o
        txt = fs[0].read_text()
    try: docs = documents(txt, fmt)
    except Exception as e: o.err = f"unreadable report: {e}: {txt[:300]}"; return o
    if (nostream or tofile) and fmt != "jsonl":
        if len(docs) != 1 or not isinstance(docs[0], dict): o.err = f"no report: {txt[:300]}{r.err[-500:]}"; return o
        o.samples = docs[0]["samples"]; o.stats = docs[0].get("statistics")
    else:
        kinds = ("attribute", "span", "span_event", "span_link", "resource", "instrumentation_scope", "metric", "log", "profile")
        for x in docs:
            if isinstance(x, dict) and len(x) == 1 and next(iter(x)) in kinds: o.samples.append(x)
            elif isinstance(x, dict): o.stats = x
    o.ents = [flatten(s) for s in o.samples]
    return o

# ---------------------------------------------------------------- comparison
def fkey(f):
    """A reported finding, reduced to what the specification says about it."""
    c = f.get("context") or {}
    x = ()
    if f["id"] == "template_attribute": x = (c.get("template_name"),)
    elif f["id"] == "deprecated": x = (c.get("deprecation_reason"),)
    elif f["id"] == "not_stable": x = (c.get("stability"),)
    elif f["id"] in ("illegal_namespace", "extends_namespace"): x = (c.get("namespace"),)
    elif f["id"] == "type_mismatch": x = (c.get("attribute_type"),)
    elif f["id"].startswith("entity_"):
        e = c.get("entity_type"); x = tuple(e) if isinstance(e, list) else (e,)
    return (f["id"], f["level"], f.get("signal_type"), f.get("signal_name"), c.get("attribute_key") or "", x)
def skey(f, e):
    x = f["x"]; x = tuple(x)
    if f["id"] in ("template_attribute", "illegal_namespace", "extends_namespace"): x = (nm(f["x"]),)
    sn = nm(e["sn"]) if e["st"] in ("span", "metric", "log") else None
    return (f["id"], f["level"], None if e["st"] == "-" else e["st"], sn, nm(f["key"]), x)

def shape(case, o):
    """Every sample reported once, in order, with all of its entities checked."""
    exp = [[(x["e"]["type"], nm(x["e"]["name"])) for x in r] for r in case["results"]]
    got = [[(x["type"], x["name"]) for x in r] for r in o.ents]
    if exp != got: return core.diff("entities", exp, got)
    un = [x["type"] for r in o.ents for x in r if not x["checked"]]
    if un: return [f"entities without a result: {un}"]
def compare(case, o, want, field="f"):
    """Findings per entity; `want(entity, finding id)` selects what is compared."""
    out = []
    for i, (er, gr) in enumerate(zip(case["results"], o.ents)):
        for j, (e, g) in enumerate(zip(er, gr)):
            a = Counter(skey(f, e["e"]) for f in e[field] if want(e["e"], f["id"])); b = Counter(fkey(f) for f in g["f"] if want(e["e"], f["id"]))
            if a != b: out.append(f"sample {i} entity {j} {g['type']} {g['name']}: missing {list((a - b).elements())}, unexpected {list((b - a).elements())}")
    return out

def nz(d): return {k: v for k, v in (d or {}).items() if v}
def recount(case, o):
    """Statistics against a recount over the reported findings; coverage as the specification counts it."""
    st = o.stats
    if not case["cfg"]["stats"]: return None
    if not isinstance(st, dict) or "total_entities" not in st: return [f"no statistics in the report: {str(st)[:200]}"]
    E = [e for r in o.ents for e in r]; Fs = [f for e in E for f in e["f"]]
    s = case["stats"]
    his = [max((f["level"] for f in e["f"]), key=LV.get) for e in E if e["f"]]
    for e in E:
        h = max((f["level"] for f in e["f"]), key=LV.get) if e["f"] else None
        if h != e["hi"]: return [f"highest level of {e['type']} {e['name']}: {e['hi']}, findings say {h}"]
    cnt = lambda ps: {nm(k): v for k, v in ps}
    reg = {x: {nm(n) for n in s[x]} for x in ("regA", "regM", "regE")}
    exp = dict(total_entities=len(E), total_entities_by_type=dict(Counter(e["type"] for e in E)), total_advisories=len(Fs),
               advice_level_counts=dict(Counter(f["level"] for f in Fs)), highest_advice_level_counts=dict(Counter(his)), no_advice_count=sum(1 for e in E if not e["f"]),
               advice_type_counts=dict(Counter(f["id"] for f in Fs)), advice_message_counts=dict(Counter(f["message"] for f in Fs)))
    got = {k: (nz(st[k]) if isinstance(st[k], dict) else st[k]) for k in exp}
    for key, counts, rs in (("attributes", "attrs", "regA"), ("metrics", "mets", "regM"), ("events", "evts", "regE")):
        c = cnt(s[counts])
        exp["seen_registry_" + key] = {**{n: 0 for n in reg[rs]}, **{n: v for n, v in c.items() if n in reg[rs]}}
        exp["seen_non_registry_" + key] = {n: v for n, v in c.items() if n not in reg[rs]}
        got["seen_registry_" + key] = st["seen_registry_" + key]; got["seen_non_registry_" + key] = nz(st["seen_non_registry_" + key])
    cov = s["cov"]; ec = cov["num"] / cov["den"] if cov["den"] else 0.0
    if abs(st["registry_coverage"] - ec) > 1e-4: return [f"coverage {st['registry_coverage']}, expected {ec}"]
    return core.diff("statistics", exp, got) or None

def exit_code(case, o):
    c = case["cfg"]
    top = max([LV[f["level"]] for r in o.ents for e in r for f in e["f"]], default=0)
    exp = 1 if c["stats"] and c["fail"] != "none" and top >= LV[c["fail"]] else 0
    if o.run.rc != exp: return [f"exit code {o.run.rc}, expected {exp} (fail-on {c['fail']}, statistics {c['stats']}, highest reported {top}): {' '.join(o.args)}"]

ATTR = lambda e, id: e["type"] == "attribute"
SIGNAL = lambda e, id: e["type"] != "attribute" and not id.startswith("entity_")
ENTITY = lambda e, id: id.startswith("entity_")
ALL = lambda e, id: True

def replayer(sc, judge, plain=False):
    def fn(i, case):
        d = sc.dir(f"c{i}")
        try:
            o = run(case, d, i, plain=plain)
            if o.err: bad = [o.err]
            else: bad = judge(case, o, d, i)
            if bad: return dict(diff=bad, case=case, args=o.args, out=o.run.out[:20000], err=o.run.err[-2000:])
        finally: core.shutil.rmtree(d, ignore_errors=True)
    return fn

def gen(c, mode, n, samples):
    r = core.tlc_many("LiveCheck", "LiveCheck.gen.cfg", n, procs=6, seed=core.SEED + {"attr": 1, "signal": 2, "stats": 3, "exit": 4, "mod": 5, "entity": 6}[mode] * 50,
                      consts={"NSamples": samples, "Mode": f'"{mode}"'}, depth=samples + 10, timeout=800)
    c.generated(r, f"random behaviours, mode {mode}"); return r.cases
def model(c):
    r = core.tlc("LiveCheck", "LiveCheck.mc.cfg", consts={"NSamples": 3 if c.thorough else 2}, workers=8, timeout=3000 if c.thorough else 600)
    c.model(r, "all behaviours over small pools: registries, configurations, samples")

def _check(c, mode, n, samples, judge):
    model(c)
    cases = gen(c, mode, n * (8 if c.thorough else 1), samples)
    with core.Scratch() as sc: c.replay(cases, replayer(sc, judge), f"live-check replay, mode {mode}")
    c.assumptions += ["values are one representative per class (types, arrays, null, objects)", "registries of at most 7 attributes, 2 metrics, 2 events, 3 entities"]

def j_findings(want):
    def j(case, o, d, i): return shape(case, o) or compare(case, o, want) or None
    return j
def check_L01(c): _check(c, "attr", 1800, 8, j_findings(ATTR))
def check_L02(c): _check(c, "signal", 1600, 6, j_findings(SIGNAL))
def check_L06(c): _check(c, "entity", 1500, 8, j_findings(ENTITY))
def check_L03(c): _check(c, "stats", 1600, 7, lambda case, o, d, i: shape(case, o) or recount(case, o))
def check_L04(c): _check(c, "exit", 1600, 3, lambda case, o, d, i: exit_code(case, o))
def check_L05(c):
    def j(case, o, d, i):
        bad = compare(case, o, ALL)
        if not bad: return recount(case, o) or exit_code(case, o)
        # is it the overrides and filters, or are the findings themselves different?
        o2 = run(case, d / "raw", i, cfg=dict(case["cfg"], over=[], filt=[]))
        if not o2.err and not compare(case, o2, ALL, "raw"): return bad
    _check(c, "mod", 1800, 5, j)
