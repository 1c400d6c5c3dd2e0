"""R04: replays behaviours of spec/Unique.tla into `weaver registry resolve`."""
import json, random
from . import core
from .core import weaver, write_tree

DIAG = {"DuplicateGroupId": "group_id", "DuplicateMetricName": "metric_name", "DuplicateGroupName": "group_name", "DuplicateAttributeId": "attribute_id", "CollidingV2SignalId": "signal_id"}
def nm(n): return ".".join(n)

def fname(d): return {"v1": f"{d['file']}_v1.yaml", "defs2": f"{d['file']}_d.yaml"}.get(d["form"], f"{d['file']}_v2.yaml")
def render(case, rng):
    files = {"base.yaml": {"groups": [dict(id="base.attrs", type="attribute_group", brief="b", stability="stable", attributes=[dict(id="k.id", type="string", brief="b", stability="stable", examples=["x"])])]}}
    order = list(range(len(case["decl"]))); rng.shuffle(order)
    for i in order:
        d = case["decl"][i]; f = files.setdefault(fname(d), {} if d["form"] == "v1" else {"file_format": "definition/2"})
        e = case["decl"][d["ext"] - 1] if d["ext"] else None
        if d["form"] == "v1":
            g = dict(id=nm(d["id"]), type=d["type"], brief="b", stability="stable", attributes=[dict(id=a, type="string", brief="b", stability="stable", examples=["x"]) for a in d["defs"]])
            if d["type"] == "span": g["span_kind"] = "client"
            if d["type"] == "metric": g.update(metric_name=nm(d["name"]), instrument="counter", unit="1")
            elif d["name"]: g["name"] = nm(d["name"])
            if d["type"] == "entity": g["attributes"].append(dict(ref="k.id", role="identifying"))
            if e: g["extends"] = nm(case["raw"][d["ext"] - 1])
            f.setdefault("groups", []).append(g)
        elif d["form"] == "defs2":
            f["attributes"] = [dict(key=a, type="string", brief="b", stability="stable", examples=["x"]) for a in d["defs"]]
        elif d["form"] == "ag2":
            g = dict(id=nm(d["id"]), visibility="internal" if d["internal"] else "public", attributes=[dict(ref="k.id")])
            if not d["internal"]: g.update(brief="b", stability="stable")
            f.setdefault("attribute_groups", []).append(g)
        else:
            g = dict(brief="b", stability="stable")
            if d["form"] == "v2":
                g["type" if d["type"] in ("span", "entity") else "name"] = nm(d["id"])
                if d["type"] == "span": g.update(kind="client", name={"note": "n"})
                if d["type"] == "metric": g.update(instrument="counter", unit="1")
                if d["type"] == "entity": g["identity"] = [dict(ref="k.id")]
                sec = {"span": "spans", "metric": "metrics", "event": "events", "entity": "entities"}[d["type"]]
            else:
                g.update(id=nm(d["id"]), ref=nm(case["raw"][d["ext"] - 1][1:]))
                sec = d["type"] + "_refinements"
            f.setdefault(sec, []).append(g)
    return files

def expected(case):
    path = lambda i: "reg/" + fname(case["decl"][i - 1]); raw = lambda i: nm(case["raw"][i - 1])
    out = {}
    def gid(i): return raw(i) if case["decl"][i - 1]["form"] != "defs2" else f"registry.reg.{case['decl'][i-1]['file']}_d"
    for sec, kind in (("ids", "DuplicateGroupId"), ("metrics", "DuplicateMetricName"), ("names", "DuplicateGroupName")):
        for r in case[sec]: out[(kind, nm(r["key"]))] = sorted({path(i) for i in r["by"]})
    for r in case["attrs"]: out[("DuplicateAttributeId", r["key"])] = sorted(gid(i) for i in r["by"])
    for r in case["v2"]: out[("CollidingV2SignalId", nm(r["key"]), r["type"])] = (sorted({gid(i) for i in r["by"]}), sorted({path(i) for i in r["by"]}))
    return out

def observed(case, diag):
    out = {}; types = {}
    for i, r in enumerate(case["raw"]): types.setdefault(nm(r), set()).add(case["types"][i])
    for d in diag:
        for n, p in core.find_errors(d["error"], set(DIAG)):
            key = (n, p[DIAG[n]])
            if n == "DuplicateAttributeId": v = sorted(p["group_ids"])
            else:
                v = sorted({x["path"] for x in p["provenances"]})
                if n == "CollidingV2SignalId":
                    # the type is not part of the report: it is one that all named groups have
                    v = (sorted(p["group_ids"]), v); key = (*key, tuple(v[0]), tuple(v[1]))
            if key in out: out[("reported twice", *key)] = v
            out[key] = v
    return out

def judge(case, diag):
    exp, got = expected(case), observed(case, diag)
    # collisions: compared as the set of (id, groups, files), since the type is not reported
    e2 = {}
    for k, v in exp.items():
        if k[0] == "CollidingV2SignalId":
            key = (k[0], k[1], tuple(v[0]), tuple(v[1])); e2[("reported twice", *key) if key in e2 else key] = v
        else: e2[k] = v
    s = lambda d: {"/".join(map(str, k)): v for k, v in d.items()}
    return core.diff("duplicates", s(e2), s(got))

FAMS = {"span": "spans", "metric": "metrics", "event": "events", "entity": "entities"}
def check_R04(c):
    r = core.tlc("Unique", "Unique.mc.cfg", consts={"N": 2}, workers=8, timeout=600); c.model(r, "all pairs of declarations, both orders")
    k = 10 if c.thorough else 1
    r = core.tlc_many("Unique", "Unique.gen.cfg", 900 * k, procs=4, seed=core.SEED, consts={"N": 5}, depth=100); c.generated(r, "random, 5 declarations"); cases = r.cases
    r = core.tlc_many("Unique", "Unique.gen.cfg", 900 * k, procs=4, seed=core.SEED + 7, consts={"N": 2}, depth=60); c.generated(r, "random, 2 declarations"); cases += r.cases
    r = core.tlc_many("Unique", "Unique.gen.cfg", 300 * k, procs=4, seed=core.SEED + 9, consts={"N": 12}, depth=200); c.generated(r, "random, 12 declarations"); cases += r.cases
    clean = [0]
    with core.Scratch() as S:
        def one(i, case):
            rng = random.Random(f"{core.SEED}-{i}"); d = S.dir(f"c{i}")
            try:
                write_tree(d / "reg", render(case, rng))
                cmd = rng.choice(["resolve", "check"]); v2 = rng.random() < 0.3
                args = ["registry", cmd, "-r", "reg", "--quiet", "--skip-policies", "--diagnostic-format", "json"] + (["--v2"] if v2 else []) + (["-f", "json"] if cmd == "resolve" else [])
                r = weaver(args, d)
                if r.crashed: return dict(case=case, diff=["crash: " + r.err[-500:]])
                diag = core.parse_diag(r.err) or core.parse_diag(r.out) if cmd == "check" else core.parse_diag(r.err)
                fatal = cmd == "resolve" and not r.out.strip()
                if fatal: return dict(case=case, diff=["resolution failed: " + r.err[-600:]], args=args)
                bad = judge(case, diag)
                if bad: return dict(case=case, diff=bad, args=args)
                if v2 and cmd == "resolve" and not case["ids"] and not case["v2"]:
                    # without a report, every declaration is in the version 2 form
                    clean[0] += 1; got = json.loads(r.out); n = {}
                    for j, t in enumerate(case["types"]):
                        if t in FAMS: n.setdefault(FAMS[t], set()).add(nm(case["v2id"][j]))
                    for f in FAMS.values():
                        ids = [x["id"] for x in got["refinements"].get(f, [])]
                        if sorted(ids) != sorted(n.get(f, ())): return dict(case=case, diff=[f"version 2 {f}: expected {sorted(n.get(f, ()))}, got {sorted(ids)}"], args=args)
            finally: core.shutil.rmtree(d, ignore_errors=True)
        c.replay(cases, one, "duplicates reported by resolve and check")
    c.extra["cases_with_duplicates"] = sum(bool(x["ids"] or x["metrics"] or x["names"] or x["attrs"] or x["v2"]) for x in cases)
    c.extra["version_2_forms_checked_for_loss"] = clean[0]
    c.assumptions += ["a refinement's target id is declared by one type only"]
