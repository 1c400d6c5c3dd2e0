"""D01: replays the dependency graphs of spec/Graph.tla into `weaver registry package` and `registry resolve`."""
import json, random
from . import core
from .core import weaver, write_tree

KINDS = {"CircularDependency": "cycle", "MaximumDependencyDepth": "deep", "IncompatibleDependencyVersions": "conflict", "AttributeNotFoundInUpgradedSchema": "missing"}
RANKS = [["1.0.0", "1.2.0", "1.2.1", "1.10.0"], ["0.9.0", "0.9.9", "0.10.0", "0.11.0"], ["1.0.0-rc.1", "1.0.0-rc.2", "1.0.0", "1.0.1"]]
LEVELS = ["required", "recommended", "opt_in", {"conditionally_required": "when"}]

class World:
    """One generated graph with names, versions and file formats for it."""
    def __init__(s, case, rng):
        s.case, s.rng = case, rng
        s.inst = case["inst"]; s.L = len(s.inst)
        s.ranks = rng.choice(RANKS); s.names = ["main"] + rng.sample(["alpha", "b", "beta", "c-reg", "delta", "eps.reg", "z", "omega", "kappa", "mu", "nu", "xi", "aa"], 13)
        s.v1 = [rng.random() < .5 for _ in s.inst]
        s.pub = set(case.get("pub", ())) & set(case.get("below", ()))
    def i(s, k): return s.inst[k - 1]
    def name(s, n): return "x.io/" + s.names[n]
    def ver(s, k):
        v = s.ranks[s.i(k)["r"]]
        return v if s.i(k)["M"] == 1 else f"{int(v.split('.')[0]) + 1}{v[v.index('.'):]}"
    def url(s, k): return f"https://{s.name(s.i(k)['n'])}/{s.ver(k)}"
    def dir(s, k): return ("p" if k in s.pub else "i") + str(k)
    def ns(s, n): return s.names[n].replace("-", "_")
    def item(s, i): return f"{s.ns(i['o'])}.{i['k']}" + (f".{s.ns(i['d'])}" if i["k"] != "m" else "")
    def level(s, i): return LEVELS[(i["o"] * 7 + i["d"] * 3 + len(i["k"])) % 4]
    def attr(s, i): return f"{s.ns(i['o'])}.x" if i["k"] == "m" else f"{s.ns(i['d'])}.{'x' if i['k'] == 'use' else 'y'}"
    def imports(s, k):
        want = {s.item(i) for i in s.case["imported"][k - 1]}
        if not want: return {}
        have = set().union(*({s.item(i) for i in s.case["own"][d - 1] + s.case["imported"][d - 1]} for d in s.i(k)["deps"]))
        pats = []
        if have == want and s.rng.random() < .6: pats = ["*"]
        else:
            left = set(want)
            for o in sorted({w.rsplit(".m", 1)[0].split(".use")[0] for w in want}):
                if s.rng.random() < .5 and {h for h in have if h.startswith(o + ".")} == {h for h in want if h.startswith(o + ".")}:
                    pats.append(o + ".*"); left -= {h for h in want if h.startswith(o + ".")}
            pats += sorted(left)
        s.rng.shuffle(pats)
        return {"metrics": pats}
    def registry(s, k):
        x = s.i(k); v = s.ver(k); ok = "own" in s.case
        man = dict(schema_url=s.url(k), description="d", dependencies=[dict(schema_url=s.url(d), registry_path=s.dir(d)) for d in x["deps"]])
        if not x["deps"] and s.rng.random() < .5: del man["dependencies"]
        own = s.case["own"][k - 1] if ok else []
        attrs = [f"{s.ns(x['n'])}.{a}" for a in "xy" if a == "x" or not x["lacks"]] if x["n"] else []
        imp = s.imports(k) if ok else {}
        ms = [(s.item(i), s.attr(i), s.level(i)) for i in own]; s.rng.shuffle(ms)
        if s.v1[k - 1]:
            f = dict(groups=[dict(id=f"g.{s.ns(x['n'])}", type="attribute_group", brief="b", stability="stable", attributes=[dict(id=a, type="string", brief=f"{a}@{v}", stability="stable", examples=["e"]) for a in attrs])] if attrs else [])
            for m, a, l in ms: f["groups"].append(dict(id="metric." + m, type="metric", metric_name=m, brief=f"{m}@{v}", stability="stable", instrument="counter", unit="1", attributes=[dict(ref=a, requirement_level=l)]))
        else:
            f = dict(file_format="definition/2", attributes=[dict(key=a, type="string", brief=f"{a}@{v}", stability="stable", examples=["e"]) for a in attrs],
                     metrics=[dict(name=m, brief=f"{m}@{v}", stability="stable", instrument="counter", unit="1", attributes=[dict(ref=a, requirement_level=l)]) for m, a, l in ms])
        if imp: f["imports"] = imp
        return {"manifest.yaml" if s.rng.random() < .8 else "registry_manifest.yaml": man, "defs.yaml": f}
    def files(s):
        out = {".weaver.toml": "[resolve.schema_url_overrides]\n" + "".join(f'"{s.url(k)}" = "{s.dir(k)}"\n' for k in range(1, s.L))}
        for k in range(1, s.L + 1):
            for p, c in s.registry(k).items(): out[f"i{k}/{p}"] = c
        return out

def judge_error(w, got, out):
    case = w.case
    kinds = {KINDS[n] for n, _ in got}
    if out.strip(): return [f"resolved, expected an error of {case['kinds']}"]
    if not kinds: return [f"no error of {case['kinds']} reported"]
    if not kinds <= set(case["kinds"]): return [f"reported {sorted(kinds)}, expected {case['kinds']}"]
    edges = {(w.name(x["n"]), w.name(w.i(d)["n"])) for x in w.inst for d in x["deps"]}
    for n, p in got:
        if n == "CircularDependency":
            c = p["chain"].split(" → ")
            if not all(e in edges for e in zip(c, c[1:])) or c[-1] not in c[:-1] or c[0] != w.name(0) or p["registry_name"] != c[-1]: return [f"not a cycle of the graph: {p}"]
        if n == "IncompatibleDependencyVersions":
            vs = {w.ver(k) for k in range(1, w.L + 1) if w.name(w.i(k)["n"]) == p["name"]}
            if not {p["version1"], p["version2"]} <= vs or p["version1"].split(".")[0] == p["version2"].split(".")[0]: return [f"not a conflict of the graph: {p}"]

def judge(w, r, v2):
    case = w.case; diag = core.parse_diag(r.err)
    got = [e for d in diag for e in core.find_errors(d["error"], set(KINDS))]
    if case["kinds"]: return judge_error(w, got, r.out)
    if got or not r.out.strip(): return [f"expected no error, got {got or r.err[-600:]}"]
    warn = sorted((p["dependency"], p["requested_version"], p["selected_version"]) for d in diag for _, p in core.find_errors(d["error"], {"DependencyVersionUpgradedWarning"}))
    exp = sorted((w.name(x["n"]), w.ver(x["req"]), w.ver(x["sel"])) for x in case["warn"])
    # the version 2 form looks up what packages were built from, each with a manifest of its own
    if not set(exp) <= set(warn) if v2 and set(case["below"]) - set(case["loaded"]) else warn != exp: return [f"warnings of raised versions: expected {exp}, got {warn}"]
    bad = [str(d["error"])[:300] for d in diag if not benign(d)]
    if bad: return ["unexpected diagnostics: " + " | ".join(bad)]
    j = json.loads(r.out); seen = {}; out = []
    if v2: ms = [(m["name"], m["brief"], [(a["key"], a["brief"], a.get("requirement_level")) for a in m["attributes"]]) for m in j["registry"]["metrics"]]
    else: ms = [(g["metric_name"], g["brief"], [(a["name"], a["brief"], a.get("requirement_level")) for a in g["attributes"]]) for g in j["groups"] if g["type"] == "metric"]
    for m in ms:
        if m[0] in seen: out.append(f"metric {m[0]} twice")
        seen[m[0]] = m
    items = {w.item(i): (i, k) for k in (w.L,) for i in case["own"][k - 1] + case["imported"][k - 1]}
    if set(seen) != set(items): return out + [f"metrics: expected {sorted(items)}, got {sorted(seen)}"]
    vers = lambda n: [w.ver(k) for k in case["texts"][n - 1]]
    for name, (i, _) in items.items():
        n, brief, attrs = seen[name]
        allowed = [f"{name}@{v}" for v in ([w.ver(w.L)] if i["o"] == 0 else vers(i["o"]))]
        if brief not in allowed: out.append(f"metric {name}: expected text {allowed}, got {brief!r}")
        a = w.attr(i); al = [f"{a}@{v}" for v in vers(i["o"] if i["k"] == "m" else i["d"])]
        if len(attrs) != 1 or attrs[0][0] != a or attrs[0][1] not in al: out.append(f"metric {name}: expected attribute {a} with text {al}, got {attrs}")
        elif attrs[0][2] != w.level(i): out.append(f"metric {name}: requirement level of {a} expected {w.level(i)!r}, got {attrs[0][2]!r}")
    return out

BENIGN = {"DependencyVersionUpgradedWarning", "MissingRequirementLevelWarning", "UnstableFileFormat", "LegacyRegistryManifest"}
def benign(d): return bool(core.find_errors(d["error"], BENIGN))

def run_case(S, i, case, tag=""):
    rng = random.Random(f"{core.SEED}-{tag}-{i}"); w = World(case, rng); d = S.dir(f"{tag}{i}")
    try:
        write_tree(d, w.files())
        for k in sorted(w.pub):
            r = weaver(["registry", "package", "-r", f"i{k}", "--v2", "--resolved-registry-uri", "resolved.yaml", "-o", f"p{k}", "--quiet", "--skip-policies", "--diagnostic-format", "json"], d)
            if r.rc or r.crashed: return dict(case=case, diff=[f"packaging {w.url(k)} failed: " + " | ".join(str(x["error"])[:400] for x in core.parse_diag(r.err) if not benign(x))], files=w.files())
        v2 = rng.random() < .5
        args = ["registry", "resolve", "-r", f"i{w.L}", "-f", "json", "--quiet", "--skip-policies", "--diagnostic-format", "json"] + (["--v2"] if v2 else [])
        r = weaver(args, d)
        if r.crashed: return dict(case=case, diff=["crash: " + r.err[-500:]])
        bad = judge(w, r, v2)
        if bad: return dict(case=case, diff=bad, args=args, files={k: v for k, v in World(case, random.Random(f"{core.SEED}-{tag}-{i}")).files().items()})
    finally: core.shutil.rmtree(d, ignore_errors=True)

def interesting(c):
    below = c.get("below", ()); names = [(c["inst"][k - 1]["n"]) for k in below]
    return bool(c["kinds"]) or len(names) > len(set(names))

def check_D01(c):
    r = core.tlc("Graph", "Graph.mc.cfg", consts={"NI": 3, "MaxDepth": 3}, workers=8, timeout=600); c.model(r, "all graphs over 3 versions and a main registry, two dependencies each")
    k = 8 if c.thorough else 1; cases = []
    if c.thorough:
        r = core.tlc("Graph", "Graph.mc.cfg", consts={"NI": 4, "MaxDepth": 3}, workers=8, timeout=3000); c.model(r, "all graphs over 4 versions")
    for nn, ni, n in ((3, 7, 2400), (4, 9, 1600), (6, 12, 800)):
        r = core.tlc_many("Graph", "Graph.gen.cfg", n * k, procs=4, seed=core.SEED + nn, consts={"NI": ni, "NN": nn, "Chain": "FALSE"}, depth=600)
        c.generated(r, f"random, {nn} names, up to {ni} versions")
        hard = [x for x in r.cases if interesting(x)]; rest = [x for x in r.cases if not interesting(x)]
        cases += hard + rest[: len(hard) // 4]
    r = core.tlc_many("Graph", "Graph.gen.cfg", 120 * k, procs=4, seed=core.SEED, consts={"NI": 11, "NN": 11, "Chain": "TRUE"}, depth=600); c.generated(r, "chains around the depth limit"); cases += r.cases
    with core.Scratch() as S: c.replay(cases, lambda i, x: run_case(S, i, x), "dependency graphs resolved"); c.replay(["refine", "published"], lambda i, x: known(S, i, x), "histories of known findings")
    kinds = {}
    for x in cases: kinds[",".join(sorted(x["kinds"])) or "resolved"] = kinds.get(",".join(sorted(x["kinds"])) or "resolved", 0) + 1
    c.extra["outcomes"] = kinds

# ---------------------------------------------------------------- fixed histories of known findings
def _def(v): return dict(file_format="definition/2", attributes=[dict(key="b.x", type="string", brief=f"b.x@{v}", stability="stable", examples=["e"])],
                         metrics=[dict(name="b.m", brief=f"b.m@{v}", stability="stable", instrument="counter", unit="1", attributes=[dict(ref="b.x", requirement_level="required")])])
def _man(name, v, deps): return dict(schema_url=f"https://x.io/{name}/{v}", description="d", dependencies=[dict(schema_url=f"https://x.io/{n}/{w}", registry_path=p) for n, w, p in deps])
def _base(main, deps):
    return {"b0/manifest.yaml": _man("b", "1.0.0", []), "b0/d.yaml": _def("1.0.0"), "b1/manifest.yaml": _man("b", "1.1.0", []), "b1/d.yaml": _def("1.1.0"),
            "a/manifest.yaml": _man("a", "1.0.0", [("b", "1.0.0", "b0")]), "a/d.yaml": dict(file_format="definition/2", imports=dict(metrics=["b.m"])),
            "m/manifest.yaml": _man("m", "1.0.0", deps), "m/d.yaml": dict(file_format="definition/2", **main)}
def known(S, i, key):
    d = S.dir(f"known-{key}")
    if key == "refine": files = _base(dict(metric_refinements=[dict(id="m.b.m", ref="b.m")]), [("a", "1.0.0", "a"), ("b", "1.1.0", "b1")])
    else: files = _base(dict(imports=dict(metrics=["b.m"])), [("a", "1.0.0", "a"), ("b", "1.1.0", "pb1")])
    write_tree(d, files)
    if key == "published": weaver(["registry", "package", "-r", "b1", "--v2", "--resolved-registry-uri", "resolved.yaml", "-o", "pb1", "--quiet", "--skip-policies"], d)
    r = weaver(["registry", "resolve", "-r", "m", "--v2", "-f", "json", "--quiet", "--skip-policies"], d)
    if not r.out.strip(): return dict(case=files, diff=["does not resolve: " + r.err[-800:]])
    j = json.loads(r.out)
    got = [m["brief"] for m in (j["refinements"]["metrics"] if key == "refine" else j["registry"]["metrics"])]
    if got == ["b.m@1.1.0"] and r.rc == 0: return None
    if sorted(got) == (["b.m@1.0.0"] if key == "refine" else ["b.m@1.0.0", "b.m@1.1.0"]): return dict(case=files, diff=[f"b.m comes from 1.0.0, 1.1.0 is chosen"], finding=f"D01-{key}")
    return dict(case=files, diff=[f"expected b.m@1.1.0, got {got}: {r.err[-500:]}"])
