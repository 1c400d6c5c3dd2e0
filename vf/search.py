"""Q01: replays the registries and questions of spec/Search.tla into `weaver serve` and `weaver registry mcp`, and live-check cases into the tool live_check."""
import json, random, urllib.parse
from collections import Counter
from . import core, livecheck, otlp, served
from .core import weaver, write_tree

SEC = {"attribute": "attributes", "metric": "metrics", "span": "spans", "event": "events", "entity": "entities"}
KEY = {"attribute": "key", "metric": "name", "span": "type", "event": "name", "entity": "type"}
ARG = {"attribute": "key", "metric": "name", "span": "type", "event": "name", "entity": "type"}
def tx(s): return "".join(s)

def registry(case, rng):
    """The items as definition files, of version 1 or 2, in any order and spread over files."""
    files = {}; items = list(case["items"]); rng.shuffle(items); names = [tx(it["id"]) for it in items if it["k"] == "attribute" and not it["tmpl"]]
    v1 = rng.random() < .4 or not names   # an entity of version 2 needs an attribute
    refs = lambda: [dict(ref=n) for n in rng.sample(names, min(len(names), rng.choice([0, 0, 1, 2])))]
    for it in items:
        k, n = it["k"], tx(it["id"]); c = dict(brief=tx(it["brief"]), note=tx(it["note"]), stability=it["stab"])
        if it["dep"]: c["deprecated"] = dict(reason="obsoleted", note="gone")
        ty = "template[string]" if it["tmpl"] else rng.choice(["string", "int"])
        f = files.setdefault(f"{'abc'[rng.randrange(3)]}.yaml", {"groups": []} if v1 else {"file_format": "definition/2"})
        if v1:
            if k == "attribute":
                a = dict(c, id=n, type=ty)
                if ty != "int": a["examples"] = ["x"]
                f["groups"].append(dict(id=f"registry.g{len(f['groups'])}.{rng.randrange(10 ** 9)}", type="attribute_group", brief="b", stability="stable", attributes=[a]))
            else:
                g = dict(c, id=f"{k}.{n}", type=k)
                if k == "metric": g.update(metric_name=n, instrument="counter", unit="1")
                elif k == "span": g.update(span_kind="client")
                else: g.update(name=n)
                g["attributes"] = [dict(r, role="identifying") if k == "entity" else r for r in refs()]
                f["groups"].append(g)
        else:
            d = {KEY[k]: n, **c}
            if k == "attribute": d["type"] = ty
            if k == "attribute" and ty != "int": d["examples"] = ["x"]
            if k == "metric": d.update(instrument="counter", unit="1")
            if k == "span": d.update(kind="client", name={"note": "n"})
            if k == "entity": d["identity"] = [dict(ref=rng.choice(names))]
            elif k != "attribute": d["attributes"] = refs()
            f.setdefault(SEC[k], []).append(d)
    return files, v1

class Api:
    """What both servers offer, over HTTP."""
    def __init__(s, port): s.port = port
    def get(s, path, **kw):
        r = served.get(s.port, served.q("/api/v1/registry/" + path, **kw))
        if r is None: raise ConnectionError("no answer")
        return r[0], json.loads(r[2]) if r[2] else None

def unordered(x): return {k: unordered(v) for k, v in x.items()} if isinstance(x, dict) else sorted(x, key=str) if isinstance(x, list) else x
def strip(r): return {k: v for k, v in r.items() if k not in ("score", "result_type")}
def differ(what, exp, got): return [] if exp == got else core.diff(what, exp, got, limit=3)

def serve(case, d, args, rng):
    port, = otlp.ports(1); p = served.Proc(["serve", "-r", "reg", "--bind", f"127.0.0.1:{port}", *args], d); bad = []; api = Api(port)
    try:
        import time
        end = time.time() + 20
        while not served.get(port, "/health"):
            if p.gone() or time.time() > end: return [f"`serve` does not start: {p.end(1).err[-600:]}"], None
            time.sleep(.02)
        st, all = api.get("filter", filter=".")
        if st != 200: return [f"filter . answers {st}"], None
        reg = all["registry"]; entry = {}
        want = {k: sorted(tx(it["id"]) for it in case["items"] if it["k"] == k) for k in SEC}
        bad += differ("registry", want, {k: sorted(e[KEY[k]] for e in reg[SEC[k]]) for k in SEC})
        if bad: return bad, None
        for k in SEC:
            for e in reg[SEC[k]]: entry[k, e[KEY[k]]] = e
        items = [entry[it["k"], tx(it["id"])] for it in case["items"]]
        for it, e in zip(case["items"], items):
            if (e["brief"], e.get("note", ""), e["stability"], bool(e.get("deprecated"))) != (tx(it["brief"]), tx(it["note"]), it["stab"], it["dep"]): bad.append(f"entry {e}, defined {it}")
        for x in case["looks"]:
            k, n = x["l"]["k"], tx(x["l"]["name"]); st, b = api.get(f"{k}/{urllib.parse.quote(n)}")
            if (st, b) != ((200, items[x["i"] - 1]) if x["i"] else (404, b)): bad.append(f"{k} {n}: {st} {str(b)[:200]}, expected {items[x['i'] - 1] if x['i'] else 404}"[:600])
        for x in case["queries"]:
            q, a = x["q"], x["a"]
            if q["how"] != "serve": continue
            kw = {} if q["none"] else dict(q=tx(q["q"]))
            if q["type"] != "all" or rng.random() < .2: kw["type"] = q["type"]
            if q["stab"]: kw["stability"] = q["stab"]
            if q["hide"]: kw["hide_deprecated"] = "true"
            if q["limit"] >= 0: kw["limit"] = q["limit"]
            if q["offset"]: kw["offset"] = q["offset"]
            st, b = api.get("search", **kw)
            exp = dict(query=kw.get("q"), total=a["total"], count=len(a["page"]), offset=q["offset"], results=page(case, items, a))
            if st != 200: bad.append(f"search {kw}: {st}")
            elif got := differ(f"search {kw}", exp, dict(b, results=[(r["result_type"], r["score"], strip(r)) for r in b["results"]])): bad += got
        st, stats = api.get("stats"); r = weaver(["registry", "stats", "-r", "reg", "--v2", "--format", "json", "--quiet"], d)
        if r.rc != 0: bad.append(f"registry stats: {r.err[-300:]}")
        else: bad += differ("stats", unordered(json.loads(r.out)), unordered({k: v for k, v in stats.items() if k != "schema_url"}))
        n = rng.choice(sorted(SEC.values()))
        for f, exp in ((f".registry.{n} | length", len(reg[n])), (f'[.registry.{n}[] | .brief]', [e["brief"] for e in reg[n]]), (".registry.{", None), ("nosuch(.)", None), ('error("no")', None)):
            st, b = api.get("filter", filter=f)
            if exp is None and (st != 400 or not b.get("error")) or exp is not None and (st, b) != (200, exp): bad.append(f"filter {f}: {st} {str(b)[:200]}, expected {exp}")
        if served.get(port, "/api/v1/schema/NoSuch")[0] != 404: bad.append("an unknown schema is found")
        return bad, items
    finally: p.kill(); p.end(5)

def page(case, items, a): return [(case["items"][x["i"] - 1]["k"], x["s"], items[x["i"] - 1]) for x in a["page"]]

def mcp(case, d, args, items, rng):
    m = served.Mcp(["registry", "mcp", "-r", "reg", "--namespace-separator", case["sep"], *args], d); bad = []
    try:
        m.hello()
        for x in case["looks"]:
            k, n = x["l"]["k"], tx(x["l"]["name"]); t, e = m.tool("get_" + k, **{ARG[k]: n})
            if x["i"]:
                if e or not t.startswith("{") or json.loads(t) != items[x["i"] - 1]: bad.append(f"get_{k} {n}: {e} {t[:300]}, expected {items[x['i'] - 1]}"[:600])
            elif e or "not found" not in t: bad.append(f"get_{k} {n}: {e} {t[:300]}, expected: not found")
        for x in case["queries"]:
            q, a = x["q"], x["a"]
            if q["how"] != "mcp": continue
            kw = {} if q["none"] else dict(query=tx(q["q"]))
            if q["type"] != "all" or rng.random() < .2: kw["type"] = q["type"]
            if q["stab"]: kw["stability"] = "experimental" if q["stab"] == "development" and rng.random() < .3 else q["stab"]
            if q["limit"] >= 0: kw["limit"] = q["limit"]
            t, e = m.tool("search", **kw)
            if e: bad.append(f"search {kw}: {e}"); continue
            b = json.loads(t)
            bad += differ(f"search {kw}", dict(total=a["total"], count=len(a["page"]), results=page(case, items, a)), dict(b, results=[(r["result_type"], r["score"], strip(r)) for r in b["results"]]))
        for x in case["browses"]:
            pre = tx(x["p"]); w = x["b"]; t, e = m.tool("browse_namespace", **({} if not pre and rng.random() < .5 else dict(prefix=pre)))
            if e: bad.append(f"browse_namespace {pre}: {e}"); continue
            exp = dict(prefix=tx(w["prefix"]), sub_namespaces=sorted(map(tx, w["subs"])), total_attribute_count=w["total"], max_depth=w["depth"],
                       attributes=sorted([dict(key=items[i - 1]["key"], brief=items[i - 1]["brief"], stability=items[i - 1]["stability"]) for i in w["direct"]], key=lambda v: v["key"]))
            bad += differ(f"browse_namespace {pre!r} by {case['sep']!r}", exp, json.loads(t))
        r = m.finish()
        if any(j.strip() for j in m.junk): bad.append(f"not of the protocol, on the standard output: {m.junk}")
        if r.rc != 0: bad.append(f"`registry mcp` ends with {r.rc}: {r.err[-300:]}")
    except ConnectionError as x: bad.append(f"{x}: {m.end(5).err[-600:]}")
    finally: m.kill()
    return bad

def replay(sc):
    def fn(i, case):
        d = sc.dir(f"c{i}"); rng = random.Random(i * 7919 + core.SEED)
        try:
            files, v1 = registry(case, rng); write_tree(d, {f"reg/{k}": v for k, v in files.items()})
            if not files: (d / "reg").mkdir(parents=True)
            args = rng.choice([[], ["--v2"], ["--v2=false"]])
            case["sep"] = tx(case["sep"]); bad, items = serve(case, d, args, rng)
            if items is not None: bad += mcp(case, d, args, items, rng)
            if bad: return dict(diff=bad, case=case, args=args + ["v1" if v1 else "v2"], files=files)
        finally: core.shutil.rmtree(d, ignore_errors=True)
    return fn

# ---- the tool live_check: the findings that `registry live-check` reports
def short(f): return (f["id"], f["level"], f["message"])
def compact(samples):
    """What the compact output must hold, from the full one: the findings of each kind of part, and the samples that have any."""
    n = 0; out = Counter()
    for s in samples:
        es = livecheck.flatten(s); n += any(e["f"] for e in es)
        for e in es:
            for f in e["f"]: out[("attribute " + e["name"] if e["type"] == "attribute" else e["type"],) + short(f)] += 1
    return n, out
def listed(x):
    out = Counter()
    for e in x["findings"]:
        for f in e["findings"]: out[(e["type"] if "type" in e else "attribute " + e["name"],) + short(f)] += 1
        for a in e.get("attribute_findings", []):
            for f in a["findings"]: out[("attribute " + a["name"],) + short(f)] += 1
    return out
def live(sc):
    def fn(i, case):
        d = sc.dir(f"l{i}"); rng = random.Random(i * 7919 + core.SEED); bad = []; o = livecheck.Obs()
        try:
            write_tree(d, {"reg/r.yaml": {"groups": livecheck.registry(case["reg"])}, "nop/p.rego": livecheck.EMPTY_REGO})
            m = served.Mcp(["registry", "mcp", "-r", "reg", *([] if case["cfg"]["rego"] else ["--advice-policies", "nop"]), *rng.choice([[], ["--v2"]])], d)
            try:
                m.hello(); samples = [livecheck.sample(s) for s in case["samples"]]
                if rng.random() < .5: m.tool("live_check", samples=[rng.choice(samples)])   # what was checked before leaves no trace
                t, e = m.tool("live_check", samples=samples, **({} if rng.random() < .5 else dict(output="full")))
                t2, e2 = m.tool("live_check", samples=samples, output="findings_only")
                if e or e2: bad.append(f"live_check: {e} {e2}")
                else:
                    o.samples = json.loads(t); o.ents = [livecheck.flatten(s) for s in o.samples]; c = json.loads(t2)
                    bad += livecheck.shape(case, o) or livecheck.compare(case, o, livecheck.ALL, "raw")
                    n, fs = compact(o.samples)
                    bad += differ("compact", dict(total_samples_checked=len(samples), samples_with_findings=n), {k: v for k, v in c.items() if k != "findings"})
                    if fs != (g := listed(c)): bad.append(f"compact: missing {list((fs - g).elements())[:4]}, unexpected {list((g - fs).elements())[:4]}")
                m.finish()
                if any(j.strip() for j in m.junk): bad.append(f"not of the protocol, on the standard output: {m.junk}")
            except ConnectionError as x: bad.append(f"{x}: {m.end(5).err[-600:]}")
            finally: m.kill()
            if bad: return dict(diff=bad, case=case, args=[])
        finally: core.shutil.rmtree(d, ignore_errors=True)
    return fn

def check_Q01(c):
    r = core.tlc("Search", "Search.mc.cfg", consts={"MaxItems": 3 if c.thorough else 2}, workers=8, timeout=3000 if c.thorough else 300)
    c.model(r, "filtering, ranking and paging of small registries in any order against the answer said at once")
    r = core.tlc_many("Search", "Search.gen.cfg", 6400 if c.thorough else 640, procs=6, seed=core.SEED + 700, consts={"MaxItems": 12}, depth=4, timeout=800)
    c.generated(r, "registries with searches, lookups and namespaces"); served_cases = r.cases
    lc = []
    for mode, n in (("attr", 100), ("signal", 150), ("entity", 100)):
        r = core.tlc_many("LiveCheck", "LiveCheck.gen.cfg", n * (8 if c.thorough else 1), procs=4, seed=core.SEED + 900 + n, consts={"NSamples": 5, "Mode": f'"{mode}"'}, depth=15, timeout=800)
        c.generated(r, f"samples for the tool live_check, mode {mode}"); lc += r.cases
    with core.Scratch() as sc:
        c.replay(served_cases, replay(sc), "registries served")
        c.replay(lc, live(sc), "samples checked by the tool live_check")
