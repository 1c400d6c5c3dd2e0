"""O01: runs the scripts of spec/Receiver.tla against `weaver registry live-check` over OTLP, records what could be seen from
outside (what was sent, acknowledged, stopped, reported, and when) and has TLC judge the histories (spec/ReceiverTrace.tla)."""
import json, os, random, signal, tempfile, threading, time
from collections import Counter
from . import core, otlp

def registry():
    at = lambda k: dict(id=k, type="string", brief="b", stability="stable", examples=["x"])
    g = [dict(id="registry.all", type="attribute_group", brief="b", stability="stable", attributes=[at(k) for k in ("r.a", "r.b", "r.c", "r.tag", "n.id")])]
    g += [dict(id="entity." + e, type="entity", name=e, brief="b", stability="stable", attributes=[dict(ref="r." + e, role="identifying", requirement_level="required")]) for e in "abc"]
    of = dict(brief="b", stability="stable", attributes=[dict(ref="n.id", requirement_level="required")], entity_associations=[{"all_of": ["a", "b", "c"]}])
    return dict(groups=g + [dict(id="metric.m", type="metric", metric_name="m.n", instrument="counter", unit="1", **of), dict(id="event.e", type="event", name="e.n", **of)])

def typed(v):
    one = lambda x: "boolean" if isinstance(x, bool) else "int" if isinstance(x, int) else "double" if isinstance(x, float) else "string" if isinstance(x, str) else None
    if isinstance(v, list):
        ts = {one(x) for x in v}
        return ts.pop() + "[]" if len(ts) == 1 and None not in ts else None
    return one(v)
def plain(v): return None if v is otlp.Unset or isinstance(v, (dict, bytes)) or v is None else v
def shown(attrs): return [dict(name=k, value=plain(v), type=typed(plain(v))) for k, v in attrs]

class World:
    """Turns the requests of the specification into exports, and remembers what each of them should be shown as."""
    def __init__(s, case, key):
        s.rng = random.Random(key); s.want = {}; s.exports = [s.export(e, r) for e, r in enumerate(case["reqs"], 1)]
    def attrs(s, k=3):
        r = s.rng; vals = ["x", "", "ünï", 3, -7, 1 << 60, 2.5, -1e30, True, False, ["a", "b"], [1, 2], [1.5], [True], otlp.Kv(a=1), otlp.Bytes(b"z"), otlp.Unset]
        return [(f"x.k{r.randrange(9)}", r.choice(vals)) for _ in range(r.choice([0, 0, 1, k]))]
    def item(s, kind, tag):
        r = s.rng; w = lambda k, v: s.want.__setitem__((k, tag), v)
        if kind == "traces":
            k = r.choice([None, "internal", "server", "client", "producer", "consumer"]); a = s.attrs()
            d = dict(name="sp " + tag, more=r.random() < .3, attributes=a, events=[dict(name=f"ev{i}", attributes=s.attrs(2)) for i in range(r.choice([0, 0, 2]))], links=[dict(attributes=s.attrs(2)) for _ in range(r.choice([0, 0, 1]))])
            st = None
            if k: d["kind"] = k
            if r.random() < .5: d["status"] = (r.randrange(3), r.choice(["", "boom"])); st = dict(code=["unset", "ok", "error"][d["status"][0]], message=d["status"][1])
            w("span", dict(name=d["name"], kind=k or "internal", status=st, attributes=shown(a), span_events=[dict(name=e["name"], attributes=shown(e["attributes"])) for e in d["events"]], span_links=[dict(attributes=shown(l["attributes"])) for l in d["links"]]))
            return d
        if kind == "metrics":
            inst = r.choice(["gauge", "counter", "updowncounter", "histogram", "exp", "exp", "summary", "none"])
            pts = [dict(attributes=s.attrs(2) + ([("n.id", "i")] if r.random() < .7 else []), value=r.choice([5, -1, 2.5]), count=r.choice([2, 2, 0]), flags=r.choice([0, 0, 0, 1]), exemplars=[dict(attributes=s.attrs(2)) for _ in range(r.choice([0, 0, 1]))]) for _ in range(r.choice([0, 1, 2]))]
            def point(p):
                q = dict(attributes=shown(p["attributes"]), exemplars=[shown(x["attributes"]) for x in p["exemplars"]], lacks=["n.id"] if "n.id" not in dict(p["attributes"]) else [])
                return dict(q, value=p["value"]) if inst in ("gauge", "counter", "updowncounter") else dict(q, count=p["count"], sum=3.0 if p["count"] else 0.0)
            w("metric", dict(name="m.n", unit=tag, instrument=dict(exp="histogram", summary="Summary", none="Unspecified").get(inst, inst), data_points=None if inst in ("summary", "none") else [point(p) for p in pts]))
            return dict(name="m.n", more=r.random() < .3, instrument=inst, unit=tag, points=pts)
        if kind == "logs":
            a = s.attrs() + [("n.id", tag)]; d = dict(event_name="e.n", attributes=a, more=r.random() < .3)
            if r.random() < .5: d["body"] = "body"
            if r.random() < .5: d["severity"], d["severity_text"] = 13, "WARN"
            w("log", dict(event_name="e.n", severity_number=d.get("severity", 0), severity_text=d.get("severity_text", ""), attributes=shown(a)))
            return d
        a = s.attrs(); w("profile", dict(original_payload_format=tag, attributes=shown(a)))
        return dict(format=tag, attributes=a)
    def export(s, e, r):
        groups = []
        for g, x in enumerate(r["groups"], 1):
            res = [("r.tag", f"{e}.{g}")] + [("r." + k, "v") for k in x["res"]] + s.attrs(1); s.rng.shuffle(res)
            if x["has"]: s.want["resource", f"{e}.{g}"] = dict(attributes=shown(res))
            scopes = []
            for k, y in enumerate(x["scopes"], 1):
                tag = f"{e}.{g}.{k}"; a = s.attrs(1); sc = dict(name="lib " + tag, version=s.rng.choice(["", "1.2"]), attributes=a) if y["named"] else None
                url = "https://s/" + tag if y["url"] else ""
                s.want["instrumentation_scope", tag] = dict(name=sc["name"] if sc else "", version=sc["version"] if sc else "", schema_url=url, attributes=shown(a) if sc else [])
                scopes.append(dict(scope=sc, schema_url=url, items=[s.item(r["kind"], f"{tag}.{i}") for i in range(1, y["items"] + 1)]))
            groups.append(dict(resource=res if x["has"] else None, scopes=scopes))
        return dict(kind=r["kind"], groups=groups)

def advice(x): return (x.get("live_check_result") or {}).get("all_advice", [])
def decode(w, s):
    """What a reported sample is a sample of (e, k, g, s, i), which entities its resource misses, and in what it differs from what was sent."""
    (k, v), = s.items(); at = lambda l: [dict(name=a["name"], value=a.get("value"), type=a.get("type")) for a in l]
    if k == "resource": tag = next((a["value"] for a in v["attributes"] if a["name"] == "r.tag"), "?"); got = dict(attributes=at(v["attributes"]))
    elif k == "instrumentation_scope": tag = (v["name"] or v["schema_url"]).split("s/")[-1].split(" ")[-1]; got = dict(name=v["name"], version=v["version"], schema_url=v["schema_url"], attributes=at(v["attributes"]))
    elif k == "span":
        tag = v["name"].split(" ")[-1]; got = dict(name=v["name"], kind=v["kind"], status=v.get("status"), attributes=at(v["attributes"]), span_events=[dict(name=e["name"], attributes=at(e["attributes"])) for e in v["span_events"]], span_links=[dict(attributes=at(l["attributes"])) for l in v["span_links"]])
    elif k == "metric":
        lacks = lambda p: [a["context"]["attribute_key"] for a in advice(p) if a["id"] == "required_attribute_not_present"]
        pt = lambda p: dict({x: p[x] for x in ("value", "count", "sum") if x in p}, attributes=at(p["attributes"]), exemplars=[at(e["filtered_attributes"]) for e in p["exemplars"]], lacks=lacks(p))
        tag = v["unit"]; got = dict(name=v["name"], unit=tag, instrument=v["instrument"], data_points=None if v.get("data_points") is None else [pt(p) for p in v["data_points"]])
    elif k == "log": tag = next((a["value"] for a in v["attributes"] if a["name"] == "n.id"), "?"); got = dict(event_name=v["event_name"], severity_number=v["severity_number"], severity_text=v["severity_text"], attributes=at(v["attributes"]))
    else: tag = v["original_payload_format"]; got = dict(original_payload_format=tag, attributes=at(v["attributes"]))
    want = w.want.get((k, tag)); t = [int(x) for x in tag.split(".")] if tag and tag != "?" else [0]; t += [0] * (4 - len(t))
    bad = [f"{k} {tag} was never sent"] if want is None else core.diff(f"{k} {tag}", want, got)
    miss = sorted(a["context"]["entity_type"] for a in advice(v) if a["id"] == "entity_required_attribute_not_present")
    return dict(e=t[0], k=k, g=t[1], s=t[2], i=t[3], miss=miss), bad

KINDS = ("resource", "instrumentation_scope", "span", "metric", "log", "profile")
def documents(text):
    d, i, samples, stats = json.JSONDecoder(), 0, [], None
    while True:
        while i < len(text) and text[i].isspace(): i += 1
        if i >= len(text): return samples, stats
        x, i = d.raw_decode(text, i)
        if x is None: continue
        if "samples" in x: samples += x["samples"]; stats = x.get("statistics") or stats
        elif len(x) == 1 and next(iter(x)) in KINDS: samples.append(x)
        elif x: stats = x

def run_case(S, i, case, tag=""):
    for attempt in range(4):
        try: return attempt_case(S, i, case, f"{tag}{i}-{attempt}")
        except otlp.Infra: pass
    raise otlp.Infra("no port")

def attempt_case(S, i, case, key):
    rng = random.Random(f"{core.SEED}-{key}"); w = World(case, f"{core.SEED}-w{key}"); d = S.dir(key); how = case["how"]; idle = how == "idle"
    try:
        core.write_tree(d, {"reg/r.yaml": registry(), "reg/manifest.yaml": dict(schema_url="https://x.io/r/1.0.0", description="d")})
        fmt = rng.choice(["json", "json", "jsonl"]); out = "http" if how == "http" else rng.choice(["-", "-", "dir", "http"] if how != "stop" else ["-", "-", "dir"])
        T = 1 if idle else 0
        args = ["--quiet"] + (["--no-stream"] if rng.random() < .3 else []) + (["--no-stats"] if rng.random() < .2 else []) + ([] if out == "-" else ["--output", "outd" if out == "dir" else out])
        L = otlp.Listener(lambda g, a: ["registry", "live-check", "-r", "reg", "--otlp-grpc-port", g, "--admin-port", a, "--inactivity-timeout", T or rng.choice([0, 60]), "--format", fmt, "--fail-on", "none", *args], d)
        conns = {}
        try:
            t0 = time.monotonic(); ms = lambda: int((time.monotonic() - t0) * 1000)
            if not L.ready():
                r = L.end()
                if "in use" in r.out + r.err: raise otlp.Infra("port")
                return dict(case=case, args=args, diff=[f"does not start: exit {r.rc} {r.err[-300:]}"])
            ev, state, bad, sids, stopped = [], {}, [], {}, False
            def event(op, e=0): ev.append(dict(op=op, e=e, t=ms()))
            def poll():
                for c, k in conns.items():
                    k.pump()
                    for sid, e in sids[c].items():
                        if sid in k.done and state[e] == "sent":
                            state[e] = "acked" if sid in k.acked else "failed"; event("ack" if state[e] == "acked" else "fail", e)
                            if state[e] == "failed" and not stopped and not idle: bad.append(f"export {e} is refused")
            def wait(c):
                for sid in list(sids.get(c, {})):
                    if sid not in conns[c].done: conns[c].wait(sid); poll()
            naps = 4 if idle and rng.random() < .7 else 0; answer = []; waiter = None
            for op in case["script"]:
                o, c, e = op["op"], op["c"], op["e"]
                try:
                    if naps > 0 and rng.random() < .3: naps -= 1; time.sleep(rng.choice([.3, .5, .7]))
                    poll()
                    if o in ("send", "await") and c not in conns:
                        if o == "await": continue
                        conns[c] = otlp.Conn(L.grpc); sids[c] = {}
                    if o == "send":
                        event("send", e); state[e] = "sent"; sids[c][conns[c].send(w.exports[e - 1]["kind"], otlp.request(w.exports[e - 1]))] = e; poll()
                        if sum(state[x] == "sent" for x in sids[c].values()) >= 90: wait(c)
                    elif o == "await": wait(c)
                    elif o == "pause": time.sleep(rng.choice([0, .02, .1, .3]))
                    elif o == "idle": break
                    else:
                        event("stop"); stopped = True
                        if o in ("http", "stop"): waiter = threading.Thread(target=lambda: answer.append(L.stop())); waiter.start()
                        else: L.p.send_signal(getattr(signal, "SIG" + o))
                except OSError as x:
                    if not stopped and not idle: bad.append(f"connection lost before the stop: {x}"); break
                    if idle: break
            # an end by inactivity is seen when the process ends
            r = L.end(timeout=60); endtime = ms()
            if waiter: waiter.join()
            event("end")
            for k in conns.values(): k.close()
        finally: L.kill()
        acts = [dict({"from": 0, "to": 0})] + [{"from": x["t"], "to": min((y["t"] for y in ev if y["op"] == "ack" and y["e"] == x["e"]), default=endtime)} for x in ev if x["op"] == "send"]
        if r.rc != 0: bad.append(f"exit code {r.rc}: {r.err[-300:]}")
        body, answered = r.out, True
        if how == "http":
            status, ctype, b = answer[0] if answer else (None, None, b""); body = b.decode("utf8", "replace")
            answered = status == 200
            if not answered: bad.append(f"the report is not returned: status {status}, {body[:200]!r}")
            elif "json" not in (ctype or ""): bad.append(f"content type {ctype}")
            if r.out.strip(): bad.append(f"stdout has content too: {r.out[:100]!r}")
        elif out == "dir":
            f = d / "outd" / f"live_check.{fmt}"; body = f.read_text() if f.exists() else ""
        try: samples, stats = documents(body)
        except ValueError as x: return dict(case=case, args=args, how=how, diff=bad + [f"the report is not {fmt}: {x}: {body[:200]!r} (exit {r.rc})"])
        rep = []
        for s in samples:
            x, b = decode(w, s); rep.append(x); bad += b
        if "--no-stats" not in args:
            n = Counter(x["k"] for x in rep)
            got = {k: ((stats or {}).get("total_entities_by_type") or {}).get(k, 0) for k in KINDS}
            bad += core.diff("statistics", {k: n[k] for k in KINDS}, got)
        h = dict(n=i, reqs=case["reqs"], ev=ev, rep=rep, idle=T * 1000, acts=acts, endtime=endtime, answered=answered, ended=r.rc is not None)
        case["history"] = h; case["args"] = args; case["wall"] = endtime
        if bad: return dict(case=dict(script=case["script"], reqs=case["reqs"]), args=args, how=how, diff=bad[:10], events=ev)
    finally: core.shutil.rmtree(d, ignore_errors=True)

def judge(c, cases, what):
    hs = [x["history"] for x in cases if "history" in x]
    if not hs: return
    n = 8; t0 = time.time()
    def one(k):
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
            for h in hs[k::n]: f.write(json.dumps(h) + "\n")
        try: return core.tlc("ReceiverTrace", "ReceiverTrace.cfg", workers=1, timeout=3000, env={"HISTORIES": f.name}) if hs[k::n] else None
        finally: os.unlink(f.name)
    with core.cf.ThreadPoolExecutor(n) as ex: rs = [r for r in ex.map(one, range(n)) if r]
    seen = sum(r.states for r in rs)
    if seen < len(hs): raise core.ToolError(f"TLC judged {seen} of {len(hs)} histories")
    for r in rs:
        for v in r.cases:
            x = cases[v["n"]]
            c.bad.append(dict(what=what, case=dict(script=x["script"], reqs=x["reqs"]), args=x["args"], history=x["history"]["ev"], report=[[y["e"], y["k"], y["g"], y["s"], y["i"], y["miss"]] for y in x["history"]["rep"]], diff=["the receiver does not admit this report: " + ", ".join(k for k, ok in v["a"].items() if not ok) + " does not hold"]))
    c.extra.setdefault("judged_histories", 0); c.extra["judged_histories"] += len(hs)
    core.log(f"[{c.prop}] {what}: {len(hs)} histories judged by TLC, {time.time() - t0:.1f}s")

def check_O01(c):
    for idle, mt, ex, cap in ((0, 0, 4, 2), (2, 5, 2, 1), (1, 4, 3, 1)) + (((0, 0, 6, 3), (2, 6, 3, 2)) if c.thorough else ()):
        r = core.tlc("Receiver", "Receiver.mc.cfg", consts={"Exports": ex, "Cap": cap, "Idle": idle, "MaxTime": mt}, workers=8, timeout=2400, mem="10g"); c.model(r, f"{ex} exports, queue of {cap}, timeout {idle}")
    k = 10 if c.thorough else 1; cases = []
    for clients, ops, burst, heavy, eager, n in ((3, 25, 6, 4, 20, 230), (1, 12, 3, 4, 20, 80), (2, 8, 60, 4, 20, 30), (3, 6, 200, 2, 20, 12), (4, 1, 1, 4, 50, 16), (3, 150, 60, 60, 100, 12)):
        r = core.tlc_many("Receiver", "Receiver.gen.cfg", n * k, procs=8, seed=core.SEED + ops, consts={"Clients": clients, "Ops": ops, "Burst": burst, "Heavy": heavy, "Eager": eager}, depth=400)
        c.generated(r, f"scripts of {clients} clients, bursts of up to {burst}"); cases += r.cases
    quick = [x for x in cases if x["how"] != "idle"]; slow = [x for x in cases if x["how"] == "idle" and len(x["script"]) < 150]; slow = sorted(slow, key=lambda x: len({r["kind"] for r in x["reqs"]}) != 1)[:len(cases) // 5]
    with core.Scratch() as S:
        for what, cs, n in (("stopped by request or signal", quick, 8), ("stopped by inactivity", slow, 20)):
            before = len(c.bad); c.replay(cs, lambda i, x: run_case(S, i, x, what[11:13]), what, n=n)
            judge(c, cs, what)
    c.extra["exports"] = sum(len(x["reqs"]) for x in cases); c.extra["stops"] = dict(Counter(x["how"] for x in cases))
