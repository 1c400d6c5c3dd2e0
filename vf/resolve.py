"""R01, R02, R03: replays behaviours of spec/Resolve.tla into `weaver registry resolve`."""
import json, random
from . import core
from .core import diff, weaver, write_tree

STAB = ["stable", "development", "alpha", "beta", "release_candidate"]
REQ = ["required", "opt_in", {"recommended": "if g3"}, {"conditionally_required": "if g4"}, {"conditionally_required": "if g5"}]
TYPES = ["string", "int", "template[string]", {"members": [{"id": "m1", "value": "v1", "brief": "b", "stability": "stable"}]}, "string[]", "double", "boolean"]
KINDS = ["client", "server", "internal", "producer", "consumer"]
INSTR = ["counter", "gauge", "histogram", "updowncounter"]
V1 = {"ag1": "attribute_group", "span1": "span", "event1": "event", "metric1": "metric", "entity1": "entity"}
REF2 = ("rspan2", "rmetric2", "revent2", "rentity2")
SIG2 = ("span2", "metric2", "event2", "entity2")
FAM = {"span2": "span", "metric2": "metric", "event2": "event", "entity2": "entity", "rspan2": "span", "rmetric2": "metric", "revent2": "event", "rentity2": "entity"}

def ix(g): return int(g[1:]) - 1
def pick(l, g): return l[ix(g) % len(l)]
def gid(g, kind):
    if kind == "defs2": return f"registry.reg.d_{g}"
    if kind in SIG2: return f"{FAM[kind]}.{g}"
    return g

def val(f, g, a, case):
    """The concrete value that group g writes for field f of attribute a."""
    if f == "examples": return [f"ex {g} {a}"]
    if f == "requirement_level": return pick(REQ, g)
    if f == "sampling_relevant": return ix(g) % 2 == 0
    if f == "stability": return pick(STAB, g)
    if f == "deprecated": return {"reason": "obsoleted", "note": f"dep {g} {a}"}
    if f == "annotations": return {"by": f"{g} {a}"}
    if f == "role": return case["groups"][g]["own"][a]["r"]
    return f"{f} {g} {a}"
DEFAULT = {"requirement_level": "recommended", "brief": "", "note": ""}

def gval(f, g):
    return {"brief": f"gbrief {g}", "note": f"gnote {g}", "stability": pick(STAB, g), "deprecated": {"reason": "obsoleted", "note": f"gdep {g}"},
            "annotations": {f"by_{g}": 1}, "span_name": {"note": f"span name {g}"}, "requirement_level": ["opt_in", "recommended"][ix(g) % 2]}[f]

def render_attr(g, a, case):
    b = case["groups"][g]; o = b["own"][a]; d = {}
    for f in o["f"]:
        if f == "role" and b["kind"] in ("entity2", "rentity2"): continue
        d[f] = val(f, g, a, case)
    if o["k"] == "ref": d["ref"] = a
    else:
        d["key" if b["kind"] == "defs2" else "id"] = a
        d["type"] = pick(TYPES, g)
    return d

def render_group(g, case):
    """-> (file kind, section, item)"""
    b = case["groups"][g]; k = b["kind"]; G = case["groups"]
    attrs = [render_attr(g, a, case) for a in b["own"] if b["own"][a]["k"] != "-"]
    tgt = lambda h: "missing.group" if h == "missing" else gid(h, G[h]["kind"])
    if k in V1:
        d = dict(id=g, type=V1[k], brief=f"gbrief {g}", stability="stable")
        if k == "span1": d["span_kind"] = pick(KINDS, g)
        if k == "event1": d["name"] = f"e.{g}"
        if k == "entity1": d["name"] = f"n.{g}"
        if k == "metric1": d.update(metric_name=f"m.{g}", instrument=pick(INSTR, g), unit="1")
        if b["ext"] != "-": d["extends"] = tgt(b["ext"])
        if b["pfx"]:
            d["prefix"] = "a"
            for x in attrs:
                if "id" in x: x["id"] = x["id"][2:]
        d["attributes"] = attrs
        return 1, "groups", d
    if k == "defs2": return 2, "attributes", attrs
    inc = [{"ref_group": tgt(i)} for i in b["inc"]]
    if k in ("ag2p", "ag2i"):
        d = dict(id=g, visibility="public" if k == "ag2p" else "internal", attributes=attrs + inc)
        if k == "ag2p": d.update(brief=f"gbrief {g}", stability="stable")
        return 2, "attribute_groups", d
    d = {("name" if f == "span_name" else f): gval(f, g) for f in b["g"]}
    if k in ("entity2", "rentity2"):
        for role, key in (("identifying", "identity"), ("descriptive", "description")):
            l = [x for x in attrs if b["own"][x["ref"]]["r"] == role]
            if l or (key == "identity" and k == "entity2"): d[key] = l
    else: d["attributes"] = attrs + inc
    if k == "span2": d.update(type=g, kind=pick(KINDS, g))
    elif k == "metric2": d.update(name=g, instrument=pick(INSTR, g), unit=f"u{ix(g)}")
    elif k == "event2": d.update(name=g)
    elif k == "entity2": d.update(type=g)
    else:
        d.update(id=g, ref="missing" if b["ext"] == "missing" else b["ext"])
        return 2, {"rspan2": "span_refinements", "rmetric2": "metric_refinements", "revent2": "event_refinements", "rentity2": "entity_refinements"}[k], d
    return 2, {"span2": "spans", "metric2": "metrics", "event2": "events", "entity2": "entities"}[k], d

def layout(case, mode, rng):
    """Files of the registry. mode: 'few' (one file per version), 'each' (one file per group), 'mix' (random partition)."""
    files = {}
    gs = list(case["order"])
    if mode == "rev": gs.reverse(); mode = "few"
    elif mode != "few": rng.shuffle(gs)
    for g in gs:
        v, sec, item = render_group(g, case)
        if sec == "attributes": files[f"d_{g}.yaml"] = {"file_format": "definition/2", "attributes": item}; continue
        if mode == "few": n = f"v{v}.yaml"
        elif mode == "each": n = f"{rng.choice('abcxyz')}{rng.randrange(10**6)}_{g}.yaml"
        else: n = f"{rng.choice(['', 'sub/', 'sub/deep/'])}{'pq'[rng.randrange(2)]}{v}.yaml"
        f = files.setdefault(n, {"file_format": "definition/2"} if v == 2 else {})
        f.setdefault(sec, []).append(item)
    return files

ERRS = {"UnresolvedExtendsRef": lambda p: ("extends", p["group_id"], p["extends_ref"]),
        "UnresolvedIncludeRef": lambda p: ("include", p["group_id"], p["include_ref"]),
        "UnresolvedAttributeRef": lambda p: ("attr", p["group_id"], p["attribute_ref"]),
        "EntityRefinementChangedIdentity": lambda p: ("identity", p["refinement_id"], p["attribute_id"])}

def run(case, d, files, env=None):
    write_tree(d / "reg", files)
    r = weaver(["registry", "resolve", "-r", "reg", "-f", "json", "--quiet", "--diagnostic-format", "json", "--skip-policies"], d, env=env)
    diag = core.parse_diag(r.err)
    got = None
    if r.out.strip():
        try: got = json.loads(r.out)
        except ValueError: pass
    return r, got, diag

def expected_errs(case):
    G = case["groups"]
    t = lambda h: "missing.group" if h == "missing" else gid(h, G[h]["kind"])
    out = set()
    for e in case["outcome"].get("errs", []):
        if e[0] == "extends":
            tgt = t(e[2])
            if e[2] == "missing" and G[e[1]]["kind"] not in V1: tgt = FAM[G[e[1]]["kind"]] + ".missing"
            out.add(("extends", gid(e[1], G[e[1]]["kind"]), tgt))
        elif e[0] == "include": out.add(("include", gid(e[1], G[e[1]]["kind"]), t(e[2])))
        elif e[0] == "dupinc": out.add(("dupinc", tuple(t(i) for i in G[e[1]]["inc"]), e[2]))
        else: out.add((e[0], gid(e[1], G[e[1]]["kind"]), e[2]))
    return out

def got_errs(diag):
    out = set()
    for d in diag:
        comp = find_fatal(d.get("error", d))
        for n, p in comp:
            if n in ERRS: out.add(ERRS[n](p))
            elif n == "DuplicateAttributeId": out.add(("dupinc", tuple(p["group_ids"]), p["attribute_id"]))
    return out

def find_fatal(err):
    """Errors of a failed resolution (below `Resolver`)."""
    if isinstance(err, dict) and "Resolver" in err:
        return core.find_errors(err["Resolver"], set(ERRS) | {"DuplicateAttributeId"})
    return []

def attr_expect(case, g, a, x):
    return dict(name=a, type=pick(TYPES, x["def"]), **{f: (val(f, s, a, case) if s != "-" else DEFAULT.get(f)) for f, s in x["fld"].items()})

def norm_type(t):
    if isinstance(t, dict) and "members" in t: return {"members": [m.get("id") for m in t["members"]]}
    return t
def norm_attr(x, fields):
    d = dict(name=x.get("name"), type=norm_type(x.get("type")))
    for f in fields: d[f] = x.get(f, DEFAULT.get(f))
    return d

def expected_groups(case):
    out = {}
    for g, attrs in case["outcome"]["attrs"].items():
        k = case["groups"][g]["kind"]
        if k in REF2 or k == "defs2" and all(x["k"] == "-" for x in attrs.values()): continue
        e = dict(attributes={a: attr_expect(case, g, a, x) for a, x in attrs.items() if x["k"] != "-"})
        for a in e["attributes"].values(): a["type"] = norm_type(a["type"])
        if k in FAM:
            base = g if k in SIG2 else case["groups"][g]["ext"]
            gs = case["gset"][g]
            for f in ("brief", "note", "stability", "deprecated"):
                e[f] = gval(f, gs[f]) if gs[f] != "-" else {"brief": "", "note": ""}.get(f)
            e["annotations"] = {f"by_{h}": 1 for h in case["gann"][g]} or None
            e["type"] = FAM[k]
            if FAM[k] == "span":
                e["span_kind"] = pick(KINDS, base)
            if FAM[k] == "metric":
                e.update(instrument=pick(INSTR, base), unit=f"u{ix(base)}", metric_name=base)
        out[gid(g, k)] = e
    return out

FIELDS = ["brief", "note", "examples", "tag", "requirement_level", "sampling_relevant", "stability", "deprecated", "annotations", "role"]
def project_groups(got, exp):
    out = {}
    for g in got.get("groups", []):
        e = exp.get(g["id"], {})
        p = dict(attributes={x["name"]: norm_attr(x, FIELDS) for x in g.get("attributes", [])})
        if len(p["attributes"]) != len(g.get("attributes", [])): p["attributes"]["#duplicates"] = True
        for f in e:
            if f != "attributes": p[f] = g.get(f, {"brief": "", "note": ""}.get(f))
        out[g["id"]] = p
    return out

V2DEF = {"brief": "", "note": "", "annotations": {}, "stability": "development"}
def attr2(case, g, a, x):
    """Version 2 form of an attribute of a group."""
    e = attr_expect(case, g, a, x); e["type"] = norm_type(e["type"])
    d = dict(key=a, type=e["type"], brief=e["brief"], note=e["note"], examples=e["examples"], stability=e["stability"] or V2DEF["stability"],
             deprecated=e["deprecated"], annotations=e["annotations"] or {}, requirement_level=e["requirement_level"])
    return d

def expected_v2(case):
    """Signals and refinements of the version 2 form, from the specification's outcome."""
    G = case["groups"]; reg = {}; ref = {}
    attrs = lambda g: {a: attr2(case, g, a, x) for a, x in case["outcome"]["attrs"][g].items() if x["k"] != "-"}
    for g in case["outcome"]["attrs"]:
        k = G[g]["kind"]; home = case["v2"][g]["home"]
        if home == "-": continue
        if home == "attribute_group":
            reg[("attribute_groups", g)] = dict(brief=f"gbrief {g}", note="", stability="stable", deprecated=None, annotations={}, attributes=attrs(g)); continue
        fam = case["v2"][g]["family"]; refines = home == "refinement"; base = case["v2"][g]["base"]
        bid = lambda b: {"event1": f"e.{b}", "entity1": f"n.{b}", "metric1": f"m.{b}"}.get(G[b]["kind"], b)
        e = dict(attributes=attrs(g))
        if k in V1: e.update(brief=f"gbrief {g}", note="", stability="stable", deprecated=None, annotations={})
        else:
            gs = case["gset"][g]
            for f in ("brief", "note", "stability", "deprecated"): e[f] = gval(f, gs[f]) if gs[f] != "-" else V2DEF.get(f)
            e["annotations"] = {f"by_{h}": 1 for h in case["gann"][g]}
            rl = gs.get("requirement_level", "-"); e["requirement_level"] = gval("requirement_level", rl) if rl != "-" else None
        src = base if k in REF2 else g
        if fam == "span": 
            e.update(type=bid(base), kind=pick(KINDS, src), name=gval("span_name", case["gset"][g]["span_name"]) if k not in V1 else {"note": ""})
            for a in e["attributes"]:
                s = case["outcome"]["attrs"][g][a]["fld"]["sampling_relevant"]
                e["attributes"][a]["sampling_relevant"] = None if s == "-" else val("sampling_relevant", s, a, case)
        if fam == "metric": e.update(instrument=pick(INSTR, src), unit="1" if k in V1 else f"u{ix(src)}", name=bid(src))
        if fam == "event": e.update(name=bid(g))
        if fam == "entity":
            at = e.pop("attributes"); role = lambda a: (lambda s: None if s == "-" else val("role", s, a, case))(case["outcome"]["attrs"][g][a]["fld"]["role"])
            e.update(type=bid(base), identity={a: x for a, x in at.items() if role(a) == "identifying"}, description={a: x for a, x in at.items() if role(a) != "identifying"})
        if not refines: reg[(FAMS[fam], bid(g))] = e
        ref[(FAMS[fam], g if refines else bid(g))] = e
    return reg, ref
def expected_defs(case):
    """The attribute definitions of the registry (identical ones count once)."""
    return {json.dumps({k: v for k, v in attr2(case, g, a, own_spec(case, g, a)).items() if k != "requirement_level"}, sort_keys=True)
            for a, gs in case["defs"].items() for g in gs}
def own_spec(case, g, a):
    o = case["groups"][g]["own"][a]
    return {"k": "attr", "def": g, "fld": {f: g if f in o["f"] else "-" for f in FIELDS}}
def got_defs(got):
    l = [json.dumps({k: v for k, v in norm_attr2(x, False).items() if k != "requirement_level"}, sort_keys=True) for x in got["registry"].get("attributes", [])]
    return l

FAMS = dict(span="spans", metric="metrics", event="events", entity="entities")
KEY2 = dict(spans="type", metrics="name", events="name", entities="type", attribute_groups="id")

def norm_attr2(x, span):
    d = dict(key=x["key"], type=norm_type(x["type"]), **{f: x.get(f, V2DEF.get(f)) for f in ("brief", "note", "examples", "stability", "deprecated", "annotations")})
    d["requirement_level"] = x.get("requirement_level", "recommended")
    if span: d["sampling_relevant"] = x.get("sampling_relevant")
    return d

def project_v2(sec, exp, key):
    """Projects a version 2 section (registry or refinements) to what the specification predicts."""
    out = {}
    for fam, items in sec.items():
        if fam == "attributes": continue
        for it in items:
            k = (fam, it[key or KEY2[fam]]); e = exp.get(k, {})
            p = {f: it.get(f, V2DEF.get(f)) for f in e}
            for f in ("attributes", "identity", "description"):
                if f in e:
                    l = it.get(f, []); p[f] = {x["key"]: norm_attr2(x, fam == "spans") for x in l}
                    if len(p[f]) != len(l): p[f]["#duplicates"] = True
            if k in out: p["#duplicate"] = True
            out[k] = p
    return out

def run_v2(d, reg="reg"):
    r = weaver(["registry", "resolve", "-r", reg, "--v2", "-f", "json", "--quiet", "--diagnostic-format", "json", "--skip-policies"], d)
    try: return r, json.loads(r.out) if r.out.strip() else None
    except ValueError: return r, None

def compare_v2(case, got):
    reg, ref = expected_v2(case)
    s = lambda d: {"/".join(k): v for k, v in d.items()}
    return diff("registry", s(reg), s(project_v2(got["registry"], reg, None))) + diff("refinements", s(ref), s(project_v2(got["refinements"], ref, "id")))

def scrub(x):
    """Removes what may depend on file names from a resolved registry."""
    if isinstance(x, dict): return {k: scrub(v) for k, v in x.items() if k not in ("path", "registry_url", "provenance")}
    if isinstance(x, list): return [scrub(v) for v in x]
    return x

CONSTS = dict(N=5, Chain='FALSE', Attrs='{"a.one","a.two","a.three"}', MaxInc=2,
              KindPool='{"ag1","span1","metric1","event1","entity1","defs2","ag2p","ag2i","span2","metric2","event2","entity2","rspan2","rmetric2","revent2","rentity2"}')

def model_runs(c):
    runs = [("3 version 1 groups, extends in all shapes, all load orders", dict(N=3, Attrs='{"a"}', Fields='{"brief"}', KindPool='{"ag1"}', MaxInc=0)),
            ("2 groups, 2 attributes, extends and includes, all load orders", dict(N=2, Attrs='{"a","b"}', Fields='{"brief"}', KindPool='{"ag1","ag2p"}', MaxInc=2))]
    if c.thorough:
        runs += [("3 groups with refinements", dict(N=3, Attrs='{"a"}', Fields='{"note"}', KindPool='{"ag1","span2","rspan2"}', MaxInc=1)),
                 ("2 entities with roles", dict(N=3, Attrs='{"a"}', Fields='{"role"}', KindPool='{"ag1","entity2","rentity2"}', MaxInc=0))]
    for what, k in runs: c.model(core.tlc("Resolve", "Resolve.mc.cfg", consts=k, workers=8, timeout=800), what)

def gen(c, n, **over):
    r = core.tlc_many("Resolve", "Resolve.gen.cfg", n, consts=dict(CONSTS, **over), depth=100)
    c.generated(r, f"random registries, {dict(CONSTS, **over)['N']} groups")
    return r.cases

def chains(c, n):
    """Long chains of extensions and of inclusions, in random load orders (one pass of the machine per link in the worst one)."""
    out = []
    for pool in ('{"ag1"}', '{"ag2p"}', '{"ag1","span1","ag2i"}'):
        r = core.tlc_many("Resolve", "Resolve.gen.cfg", n, procs=2, consts=dict(CONSTS, N=16, Chain="TRUE", Attrs='{"a.one"}', MaxInc=1, KindPool=pool), depth=600)
        c.generated(r, f"chains of 16 groups {pool}"); out += r.cases
    return out

def check_R01(c):
    model_runs(c)
    n = 20000 if c.thorough else 2600
    cases = [x for x in gen(c, n) + gen(c, n // 4, N=7, Attrs='{"a.one","a.two"}') if x["outcome"]["ok"]]
    with core.Scratch() as S:
        def one(i, case):
            rng = random.Random(f"{core.SEED}-{i}")
            d = S.dir(f"c{i}")
            try:
                r, got, diag = run(case, d, layout(case, rng.choice(["few", "each", "mix"]), rng))
                if r.crashed: return dict(case=case, diff=["crash: " + r.err[-500:]])
                if got is None: return dict(case=case, diff=["resolution failed although every reference resolves: " + r.err[-700:]])
                exp = expected_groups(case)
                df = diff("groups", exp, project_groups(got, exp))
                if not df:
                    r2, got2 = run_v2(d)
                    if r2.crashed: return dict(case=case, diff=["crash: " + r2.err[-500:]])
                    if got2 is None: return dict(case=case, diff=["the version 2 form could not be made: " + r2.err[-700:]])
                    df = compare_v2(case, got2)
                return dict(case=case, diff=df, got=got) if df else None
            finally: core.shutil.rmtree(d, ignore_errors=True)
        c.replay(cases, one, "resolved registries")

def check_R02(c):
    model_runs(c)
    n = 20000 if c.thorough else 2600
    cases = chains(c, 60 if c.thorough else 12) + gen(c, n) + gen(c, n // 4, N=7, Attrs='{"a.one","a.two"}')
    c.extra["expected_failures"] = sum(not x["outcome"]["ok"] for x in cases)
    with core.Scratch() as S:
        def one(i, case):
            rng = random.Random(f"{core.SEED}-{i}")
            d = S.dir(f"c{i}")
            try:
                r, got, diag = run(case, d, layout(case, rng.choice(["few", "each", "mix"]), rng))
                if r.crashed: return dict(case=case, diff=["crash: " + r.err[-500:]])
                ok = got is not None
                if ok != case["outcome"]["ok"]:
                    return dict(case=case, diff=[f"expected ok={case['outcome']['ok']} errors={sorted(map(str, expected_errs(case)))}, got ok={ok} rc={r.rc} {r.err[-600:]}"])
                if ok:
                    # nothing dangles: every attribute has a type and a name
                    return None
                if r.rc == 0: return dict(case=case, diff=["resolution failed but the exit code is 0"])
                e, g = expected_errs(case), got_errs(diag)
                if e != g: return dict(case=case, diff=[f"expected errors {sorted(map(str, e - g))} missing, unexpected {sorted(map(str, g - e))}"])
            finally: core.shutil.rmtree(d, ignore_errors=True)
        c.replay(cases, one, "success or exact set of errors")

def check_R03(c):
    model_runs(c)
    n = 8000 if c.thorough else 800
    cases = chains(c, 60 if c.thorough else 12) + gen(c, n) + gen(c, n // 4, N=7, Attrs='{"a.one","a.two"}')
    # failures have no order obligation beyond their error set
    with core.Scratch() as S:
        def one(i, case):
            rng = random.Random(f"{core.SEED}-{i}")
            seen = []
            for j, (mode, thr) in enumerate([("few", "1"), ("rev", "1"), ("each", "1"), ("each", "8"), ("mix", "4")]):
                d = S.dir(f"c{i}-{j}")
                try:
                    r, got, diag = run(case, d, layout(case, mode, rng), env={"RAYON_NUM_THREADS": thr})
                finally: core.shutil.rmtree(d, ignore_errors=True)
                if r.crashed: return dict(case=case, diff=["crash: " + r.err[-500:]])
                seen.append((mode, thr, scrub(got) if got is not None else ["failed", sorted(map(str, got_errs(diag)))]))
            for s in seen[1:]:
                if s[2] != seen[0][2]:
                    return dict(case=case, diff=[f"layout {seen[0][:2]} and {s[:2]} differ"] + diff("registry", seen[0][2], s[2]))
            if isinstance(seen[0][2], dict):
                gs = [g["id"] for g in seen[0][2].get("groups", [])]
                if gs != sorted(gs): return dict(case=case, diff=[f"groups not in canonical order: {gs}"])
                for g in seen[0][2].get("groups", []):
                    ns = [a["name"] for a in g.get("attributes", [])]
                    if ns != sorted(ns): return dict(case=case, diff=[f"attributes of {g['id']} not in canonical order: {ns}"])
        c.replay(cases, one, "five file layouts and thread counts per registry")

class BadIndex(Exception): pass
def materialize(pkg):
    """Expands the attribute indexes of a packaged (resolved) schema; an index out of range is an error."""
    cat = pkg.get("attribute_catalog", [])
    def at(i):
        if not isinstance(i, int) or not 0 <= i < len(cat): raise BadIndex(f"attribute index {i} out of range {len(cat)}")
        return cat[i]
    def item(it):
        it = dict(it)
        for f in ("attributes", "identity", "description"):
            if f in it: it[f] = [dict(at(x["base"]), **{k: v for k, v in x.items() if k != "base"}) for x in it[f]]
        return it
    out = {}
    for sec in ("registry", "refinements"):
        out[sec] = {k: ([at(i) for i in v] if k == "attributes" else [item(x) for x in v]) for k, v in pkg.get(sec, {}).items()}
    return out

MANIFEST = {"schema_url": "https://example.org/main/1.0.0", "description": "d", "stability": "stable"}
def strip_prov(x):
    if isinstance(x, dict): return {k: strip_prov(v) for k, v in x.items() if k != "provenance"}
    if isinstance(x, list): return [strip_prov(v) for v in x]
    return x

def check_R05(c):
    import yaml
    Y = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
    model_runs(c)
    n = 16000 if c.thorough else 1800
    cases = [x for x in gen(c, n) + gen(c, n // 4, N=7, Attrs='{"a.one","a.two"}') if x["outcome"]["ok"]]
    packaged = []
    with core.Scratch() as S:
        def one(i, case):
            rng = random.Random(f"{core.SEED}-{i}"); d = S.dir(f"c{i}")
            try:
                write_tree(d / "reg", dict(layout(case, rng.choice(["few", "each", "mix"]), rng), **{"manifest.yaml": MANIFEST}))
                r, got = run_v2(d)
                if r.crashed: return dict(case=case, diff=["crash: " + r.err[-500:]])
                if got is None: return dict(case=case, diff=["no version 2 form: " + r.err[-700:]])
                df = compare_v2(case, got)
                e, g = expected_defs(case), got_defs(got)
                if set(g) != e or len(g) != len(e): df.append(f"attribute definitions: missing {sorted(e - set(g))}, invented {sorted(set(g) - e)}, {len(g)} for {len(e)}")
                if df: return dict(case=case, diff=df, got=got)
                # the packaged form: indexes into a catalog, and what is read back from it
                p = weaver(["registry", "package", "-r", "reg", "--v2", "--skip-policies", "--resolved-registry-uri", "resolved.yaml", "-o", "pkg", "--quiet", "--diagnostic-format", "json"], d)
                if p.crashed: return dict(case=case, diff=["crash: " + p.err[-500:]])
                if p.rc != 0: return None         # the registry has authoring errors (e.g. one attribute defined twice)
                packaged.append(1)
                try: m = materialize(yaml.load((d / "pkg" / "resolved.yaml").read_text(), Loader=Y))
                except BadIndex as ex: return dict(case=case, diff=[str(ex)])
                df = compare_v2(case, m)
                if sorted(got_defs(m)) != sorted(g): df.append("packaged attribute definitions differ")
                if df: return dict(case=case, diff=["packaged:"] + df)
                r, back = run_v2(d, "pkg")
                if back is None: return dict(case=case, diff=["the package cannot be read back: " + r.err[-600:]])
                df = diff("reloaded", strip_prov({k: got[k] for k in ("registry", "refinements")}), strip_prov({k: back[k] for k in ("registry", "refinements")}))
                if df: return dict(case=case, diff=df)
            finally: core.shutil.rmtree(d, ignore_errors=True)
        c.replay(cases, one, "version 2 form, package and reload")
    c.extra["packaged"] = len(packaged)
