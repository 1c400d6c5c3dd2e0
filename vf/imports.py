"""D02, D03: replays the registries, imports and uses of spec/Import.tla into `weaver registry package` and `registry resolve`."""
import json, random
from . import core
from .core import weaver, write_tree

SHORT = {"metric": "met", "event": "evt", "span": "spn", "entity": "ent", "group": "grp"}
FIELD = {"metric": "metrics", "event": "events", "span": "spans", "entity": "entities", "group": "attribute_groups"}
PRE = {"group": "attribute_group", **{f: f for f in ("metric", "event", "span", "entity")}}
LEVELS = ["required", "recommended", "opt_in", {"conditionally_required": "when"}]
EXCLUDE = {"dependency_resolution": {"exclude": True}}
ERRORS = {"ExcludedFromDependencyResolution", "UnresolvedExtendsRef", "UnresolvedAttributeRef", "UnresolvedEntityAssociation", "UnresolvedIncludeRef", "UnmatchedImport"}
BENIGN = {"DependencyVersionUpgradedWarning", "MissingRequirementLevelWarning", "UnstableFileFormat", "LegacyRegistryManifest", "DeprecatedIncludeUnreferencedWarning"}

class World:
    def __init__(s, case, rng):
        s.case, s.rng = case, rng; s.reg = case["reg"]; s.L = len(s.reg)
        s.names = rng.sample(["alpha", "bravo", "c_reg", "delta", "eps", "kilo", "zulu"], s.L)
    def r(s, k): return s.reg[k - 1]
    def ns(s, k): return s.names[k - 1]
    def url(s, k): return f"https://x.io/{s.ns(k)}/1.{k}.0"
    def dir(s, k): return ("pub/" if s.r(k)["fmt"] == "pkg" and k < s.L else "") + s.ns(k)
    def plain(s, i): return f"{s.ns(i['s'])}.{SHORT[i['f']]}{i['n']}" if i["n"] else f"{s.ns(i['s'])}.defs"
    def id(s, i): return ("registry." if i["n"] == 0 else "" if i["f"] == "group" else i["f"] + ".") + s.plain(i)
    def name(s, n): return f"{s.ns(n['s'])}.a{n['n']}" if n["f"] == "attr" else s.id(n) if n["sp"] == "id" else s.plain(n)
    def akey(s, a, n): return f"{s.ns(a)}.a{n}"
    def pattern(s, p):
        if p["t"] == "all": return s.rng.choice(["*", "**", "*.*"])
        if p["t"] == "none": return "zz." + s.rng.choice(["none", "*"])
        i = dict(f=p["f"], s=p["s"], n=p["n"]); last = s.plain(i).rsplit(".", 1)[1]
        if p["t"] == "num": return s.rng.choice([f"*.{last}", f"*{last[1:]}", f"**.{last}"])
        head = ("registry." if p["n"] == 0 or p["t"] == "ns" else "attribute_group.") if p["f"] == "group" else p["f"] + "."
        base = head if p["id"] else ""
        if p["t"] == "ns": return base + s.ns(p["s"]) + s.rng.choice([".*", ".[a-z]*", ".?*"])
        full = base + s.plain(i)
        return s.rng.choice([full, full, full, full[:-1] + f"[{full[-1]}]", full.replace(".", "[.]", 1), "{" + full + ",zz.top}"])
    def level(s, k, j): return LEVELS[(k * 5 + j * 3) % 4]
    def ex(s, on): return dict(annotations=EXCLUDE) if on else s.rng.choice([{}] * 5 + [dict(annotations={"dependency_resolution": {"exclude": False}}), dict(annotations={"dependency_resolution": {"exclude": "true"}}), dict(annotations={"dependency_resolution": True}), dict(annotations={"other": {"exclude": True}})])
    def attr(s, k, a):
        key = s.akey(a["s"], a["n"])
        return dict(type="string", brief=f"{key}@{s.ns(k)}", stability="stable", examples=["e"], **s.ex(a["ex"])), key
    def body(s, k, j, i, v1):
        """One declared item; i has as/an, the attribute it uses."""
        ref = dict(ref=s.akey(i["as"], i["an"]), requirement_level=s.level(k, j)); n = s.plain(i)
        c = dict(brief=f"{i['f']} {n}@{s.ns(k)}", stability="stable", **s.ex(i["ex"])); f = i["f"]
        if v1:
            g = dict(id=s.id(i), type="attribute_group" if f == "group" else f, attributes=[ref], **c)
            if f == "metric": g.update(metric_name=n, instrument="counter", unit="1")
            if f in ("event", "entity"): g["name"] = n
            if f == "span": g["span_kind"] = "client"
            if f == "entity": ref["role"] = "identifying"
            return g
        if f == "group":
            if i["int"]: c = {}
            return dict(id=n, visibility="internal" if i["int"] else "public", attributes=[ref], **c)
        g = dict(c, attributes=[ref])
        if f == "metric": g.update(name=n, instrument="counter", unit="1")
        if f == "event": g["name"] = n
        if f == "span": g.update(type=n, kind="client", name={"note": "n"})
        if f == "entity": g.update(type=n, identity=[ref]); del g["attributes"]
        return g
    def uses(s, v1):
        out = []
        for j, u in enumerate(s.case["uses"], 1):
            c = dict(brief=f"use {j}", stability="stable", **s.ex(u["ex"])); me = f"{s.ns(s.L)}.use{j}"
            if u["k"] == "refine":
                t = dict(f=u["f"], s=u["s"], n=u["n"])
                if v1 and u["f"] == "group": out.append(("x", dict(id=me, type="attribute_group", extends=s.id(t), **c)))
                elif v1: out.append(("x", dict(id="span." + me, type="span", span_kind="client", extends=s.id(t), **c)))
                else: out.append((u["f"] + "_refinements", dict(id=me, ref=s.plain(t), **c)))
                continue
            m = dict(id="metric." + me, type="metric", metric_name=me) if v1 else dict(name=me)
            m.update(instrument="counter", unit="1", **c)
            if u["k"] == "ref": m["attributes"] = [dict(ref=s.akey(u["s"], u["n"]), requirement_level=s.level(s.L, 40 + j))]
            elif u["k"] == "incl": m["attributes"] = [dict(ref_group=s.plain(u))]
            else:
                m["attributes"] = []; m["entity_associations"] = [s.plain(dict(f="entity", s=u["s"], n=u["n"]))]
            out.append(("metrics", m))
        return out
    def registry(s, k):
        x = s.r(k); v1 = x["fmt"] == "v1"
        man = dict(schema_url=s.url(k), description="d", dependencies=[dict(schema_url=s.url(d), registry_path=s.dir(d)) for d in x["deps"]])
        attrs = [s.attr(k, a) for a in x["attrs"]]
        items = [(o["i"]["f"], s.body(k, j, o["i"], v1)) for j, o in enumerate(x["own"], 1) if o["i"]["n"]]
        if k == s.L: items += s.uses(v1)
        s.rng.shuffle(items)
        imp = {}
        for p in x["pats"]: imp.setdefault(FIELD[p["f"]], []).append(s.pattern(p))
        s.patterns = imp
        if v1:
            gs = [dict(id=f"registry.{s.ns(k)}.defs", type="attribute_group", brief="registry", stability="stable", attributes=[dict(id=key, **a) for a, key in attrs])] + [g for _, g in items]
            f = dict(groups=gs)
        else:
            f = dict(file_format="definition/2", attributes=[dict(key=key, **a) for a, key in attrs])
            for fam, g in items: f.setdefault(FIELD.get(fam, fam), []).append(g)
        out = {"manifest.yaml": man, "defs.yaml": f}
        if imp and s.rng.random() < .5:                       # the patterns stand in one file, or are spread over several
            blocks = [{} for _ in range(s.rng.choice([2, 2, 3]))]
            for fam, ps in imp.items():
                for q in ps: s.rng.choice(blocks).setdefault(fam, []).append(q)
            for n, b in enumerate(b for b in blocks if b):
                t = s.rng.choice(["a_imports", "imports", "z/imports"]) + f"{n}.yaml"
                out[t] = dict(groups=[], imports=b) if v1 else dict(file_format="definition/2", imports=b)
        elif imp: f["imports"] = imp
        return out
    def files(s):
        out = {".weaver.toml": "[resolve.schema_url_overrides]\n" + "".join(f'"{s.url(k)}" = "{s.dir(k)}"\n' for k in range(1, s.L))}
        for k in range(1, s.L + 1):
            for p, c in s.registry(k).items(): out[f"{s.ns(k)}/{p}"] = c
        return out
    def user(s, j):
        """How the j-th use is called in diagnostics."""
        if j == 0: return "imports"
        me = f"{s.ns(s.L)}.use{j}"
        if s.case["uses"][j - 1]["k"] == "refine": return "span." + me if s.r(s.L)["fmt"] == "v1" and s.case["uses"][j - 1]["f"] == "span" else me
        return "metric." + me
    def errors(s):
        out = set()
        for e in s.case["errs"]:
            n = s.name(e["id"])
            if e["k"] == "excluded": out.add(("excluded", n, "attribute_group" if e["t"] == "group" else e["t"], s.user(e["u"])))
            else: out.add((e["t"], n, s.user(e["u"])))
        return out

def got_errors(diag):
    out = []
    for d in diag:
        for n, p in core.find_errors(d["error"], ERRORS):
            if n == "ExcludedFromDependencyResolution": out.append(("excluded", p["id"], p["type"], p["used_in"]))
            elif n == "UnresolvedExtendsRef": out.append(("extends", p["extends_ref"], p["group_id"]))
            elif n == "UnresolvedIncludeRef": out.append(("include", p["include_ref"], p["group_id"]))
            elif n == "UnresolvedAttributeRef": out.append(("ref", p["attribute_ref"], p["group_id"]))
            elif n == "UnresolvedEntityAssociation": out.append(("assoc", p["entity_type"], p["group_id"]))
            else: out.append(("unmatched", p["signal"], p["pattern"]))
    return out

def judge(w, r, v2):
    case = w.case; diag = core.parse_diag(r.err)
    bad = [str(d["error"])[:300] for d in diag if not core.find_errors(d["error"], ERRORS | BENIGN)]
    if bad: return ["unexpected diagnostics: " + " | ".join(bad)]
    got = got_errors(diag)
    if case["errs"]:
        exp = w.errors()
        if r.out.strip(): return [f"resolved, expected the errors {sorted(exp)}, got {got}"]
        if set(got) != exp: return [f"errors: expected {sorted(exp)}, got {sorted(set(got))}"]
        if not r.rc: return ["exit code 0 in spite of errors"]
        return []
    pats = [(FIELD[p["f"]], q) for p, q in w.mainpats]
    exp = sorted(("unmatched",) + pats[j - 1] for j in case["unmatched"])
    if sorted(got) != exp: return [f"errors: expected {exp}, got {sorted(got)}"]

    if not r.out.strip(): return ["no output: " + r.err[-400:]]
    j = json.loads(r.out)
    return judge_v2(w, j) if v2 else judge_v1(w, j)

def expected(w, v2):
    """(kind, name) -> (brief, attributes, origin) of everything the main registry contains."""
    case = w.case; out = {}
    for e in case["content"]:
        o = w.r(e["o"])["own"][e["j"] - 1]; i = o["i"]
        if i["n"] == 0:
            if v2: continue
            continue
        if i["f"] == "group" and v2 and not e["pub"]: continue
        if i["int"]: continue
        key = w.akey(i["as"], i["an"])
        out[(i["f"], w.plain(i))] = (f"{i['f']} {w.plain(i)}@{w.ns(e['o'])}", [(key, f"{key}@{w.ns(o['def'])}", w.level(e["o"], e["j"]))], w.url(e["o"]) if e["o"] != w.L else None)
    for n, (u, x) in enumerate(zip(case["uses"], case["used"]), 1):
        me = f"{w.ns(w.L)}.use{n}"
        if u["k"] == "refine": continue
        key = w.akey(u["s"], u["n"])
        out[("metric", me)] = (f"use {n}", [(key, f"{key}@{w.ns(x['o'])}", w.level(w.L, 40 + n))] if u["k"] == "ref" else [], None)
    return out

def refined(w):
    out = {}
    for n, (u, x) in enumerate(zip(w.case["uses"], w.case["used"]), 1):
        if u["k"] != "refine": continue
        i = w.r(x["o"])["own"][x["j"] - 1]["i"]; key = w.akey(i["as"], i["an"])
        out[(u["f"], f"{w.ns(w.L)}.use{n}")] = (f"use {n}", [(key, f"{key}@{w.ns(x['def'])}", w.level(x["o"], x["j"]))])
    return out

def attrs2(x, key="key"): return [(a[key], a["brief"], a.get("requirement_level")) for a in x.get("attributes", []) + x.get("identity", []) + x.get("description", [])]

def judge_v2(w, j):
    exp = expected(w, True); got = {}; out = []
    for f, sec in FIELD.items():
        for x in j["registry"].get(sec, []):
            n = x["id"] if f == "group" else x["type"] if f in ("span", "entity") else x["name"]
            if (f, n) in got: out.append(f"{f} {n} twice")
            src = (x.get("provenance") or {}).get("source")
            got[(f, n)] = (x["brief"], attrs2(x), src)
    for k in set(exp) | set(got):
        e, g = exp.get(k), got.get(k)
        if e is None: out.append(f"unexpected {k[0]} {k[1]}: {g}")
        elif g is None: out.append(f"{k[0]} {k[1]} is missing")
        elif e[:2] != g[:2]: out.append(f"{k[0]} {k[1]}: expected {e[:2]}, got {g[:2]}")
        elif w.origin and (e[2] or w.url(w.L)) != (g[2] or w.url(w.L)): out.append(f"{k[0]} {k[1]}: expected source {e[2]}, got {g[2]}")
    # attributes: every own one, and none that another registry excludes
    seen = {(a["key"], a["brief"]) for a in j["registry"]["attributes"]}
    for k in range(1, w.L + 1):
        for a in w.r(k)["attrs"]:
            key = w.akey(a["s"], a["n"]); hit = (key, f"{key}@{w.ns(k)}") in seen
            if k == w.L and not hit: out.append(f"attribute {key} of the registry is missing")
            if k != w.L and a["ex"] and hit: out.append(f"attribute {key} is excluded by {w.ns(k)} and yet contained")
    if True:
        exp = {k: v for k, v in refined(w).items() if k[0] != 'group'}; got = {}
        for f, sec in FIELD.items():
            for x in j["refinements"].get(sec, []):
                if ".use" in x["id"] and not x["id"].startswith(f + "."): got[(f, x["id"])] = (x["brief"], attrs2(x))
        # every signal refines itself under its own id
        got = {k: v for k, v in got.items() if k in exp or ("metric", k[1]) not in expected(w, True)}
        if exp != got: out += core.diff("refinements", {str(k): list(map(str, v)) for k, v in exp.items()}, {str(k): list(map(str, v)) for k, v in got.items()})
    return out[:6]

def judge_v1(w, j):
    exp = expected(w, False); got = {}; out = []; defs = {}
    if w.r(w.L)["fmt"] == "v1": exp.update({k: v + (None,) for k, v in refined(w).items()})
    for g in j["groups"]:
        f = "group" if g["type"] == "attribute_group" else g["type"]
        n = g.get("metric_name") or g.get("name") or g["id"]
        if f == "group": n = g["id"].removeprefix("attribute_group.")
        if f == "span": n = g["id"].removeprefix("span.")
        if f == "group" and n.startswith("registry.") and n.endswith(".defs"):
            if n in defs: out.append(f"group {n} twice")
            defs[n] = sorted((a["name"], a["brief"]) for a in g.get("attributes", [])); continue
        if (f, n) in got: out.append(f"{f} {n} twice")
        got[(f, n)] = (g["brief"], attrs2(g, "name"), None)
    want = {}
    for e in w.case["content"]:   # the attributes a registry declares, when they are imported
        if w.r(e["o"])["own"][e["j"] - 1]["i"]["n"]: continue
        k = e["o"]; keys = [w.akey(a["s"], a["n"]) for a in w.r(k)["attrs"] if k == w.L or not a["ex"]]
        want[f"registry.{w.ns(k)}.defs"] = sorted((x, f"{x}@{w.ns(k)}") for x in keys)
    out += core.diff("declared attributes", want, defs)
    for k in set(exp) | set(got):
        e, g = exp.get(k), got.get(k)
        if e is None: out.append(f"unexpected {k[0]} {k[1]}: {g}")
        elif g is None: out.append(f"{k[0]} {k[1]} is missing")
        elif e[:2] != g[:2]: out.append(f"{k[0]} {k[1]}: expected {e[:2]}, got {g[:2]}")
    return out[:6]

def run_case(S, i, case, tag=""):
    rng = random.Random(f"{core.SEED}-{tag}-{i}"); w = World(case, rng); d = S.dir(f"{tag}{i}"); w.origin = True
    try:
        files = w.files(); main = w.r(w.L)
        left = {f: list(v) for f, v in w.patterns.items()}
        w.mainpats = [(p, left[FIELD[p["f"]]].pop(0)) for p in main["pats"]]
        write_tree(d, files)
        for k in range(1, w.L):
            if w.r(k)["fmt"] != "pkg": continue
            r = weaver(["registry", "package", "-r", w.ns(k), "--v2", "--resolved-registry-uri", "resolved.yaml", "-o", w.dir(k), "--quiet", "--skip-policies", "--diagnostic-format", "json"], d)
            if r.rc or r.crashed: return dict(case=case, diff=[f"packaging {w.url(k)} failed: " + " | ".join(str(x["error"])[:400] for x in core.parse_diag(r.err))], files=files)
        v2 = rng.random() < .6
        args = ["registry", "resolve", "-r", w.ns(w.L), "-f", "json", "--quiet", "--skip-policies", "--diagnostic-format", "json"] + (["--v2"] if v2 else []) + (["--include-unreferenced"] if case["all"] else [])
        r = weaver(args, d)
        if r.crashed: return dict(case=case, diff=["crash: " + r.err[-500:]])
        bad = judge(w, r, v2)
        if bad: return dict(case=case, diff=bad, args=args, files=files)
    finally: core.shutil.rmtree(d, ignore_errors=True)

def excludes(c): return any(a["ex"] for r in c["reg"] for a in r["attrs"]) or any(o["i"]["ex"] or o["i"]["int"] for r in c["reg"] for o in r["own"])
def imports_some(c): return len(c["content"]) > len(c["reg"][-1]["own"]) or bool(c["unmatched"])

def generate(c, seed, sizes, pick):
    k = 8 if c.thorough else 1; cases = []
    for nr, nn, n in sizes:
        r = core.tlc_many("Import", "Import.gen.cfg", n * k, procs=8, seed=core.SEED * 100 + seed + nr, consts={"NR": nr, "NN": nn}, depth=800)
        c.generated(r, f"random, {nr} dependencies, {nn} names per family"); cases += [x for x in r.cases if not x["twice"] and pick(x)]
    return cases

def outcomes(c, cases):
    n = {}
    for x in cases:
        for o in {f"{e['k']} {e['t']}" for e in x["errs"]} or {"resolved" + (", unmatched patterns" if x["unmatched"] else "")}: n[o] = n.get(o, 0) + 1
    c.extra["outcomes"] = n

def model(c):
    r = core.tlc("Import", "Import.mc.cfg", workers=8, timeout=900); c.model(r, "all pairs of dependencies (3 formats, item and attribute excluded or not, patterns) and manifests and imports of a main registry")

def check_D02(c):
    model(c)
    cases = generate(c, 0, ((1, 2, 500), (2, 2, 1300), (4, 3, 1300)), lambda x: excludes(x) and (x["errs"] or x["all"] or x["uses"]))
    with core.Scratch() as S: c.replay(cases, lambda i, x: run_case(S, i, x), "registries using others resolved")
    outcomes(c, cases)

def check_D03(c):
    model(c)
    cases = generate(c, 50, ((1, 2, 700), (2, 2, 1500), (4, 2, 1500), (6, 3, 600)), lambda x: not x["errs"] and imports_some(x))
    with core.Scratch() as S:
        c.replay(cases, lambda i, x: run_case(S, i, x), "registries with imports resolved")
        c.replay(["group-twice"], lambda i, x: known(S, i, x), "histories of known findings")
    outcomes(c, cases)

# ---------------------------------------------------------------- fixed histories of known findings
def known(S, i, key):
    d = S.dir(f"known-{key}"); man = lambda n, deps: dict(schema_url=f"https://x.io/{n}/1.0.0", description="d", dependencies=[dict(schema_url=f"https://x.io/{a}/1.0.0", registry_path=p) for a, p in deps])
    imp = dict(file_format="definition/2", imports=dict(attribute_groups=["a.g"]))
    files = {".weaver.toml": '[resolve.schema_url_overrides]\n"https://x.io/a/1.0.0" = "pa"\n',
             "a/manifest.yaml": man("a", []), "a/d.yaml": dict(file_format="definition/2", attributes=[dict(key="a.x", type="string", brief="b", stability="stable", examples=["e"])],
                                                               attribute_groups=[dict(id="a.g", visibility="public", brief="g", stability="stable", attributes=[dict(ref="a.x", requirement_level="required")])]),
             "b/manifest.yaml": man("b", [("a", "pa")]), "b/d.yaml": imp, "m/manifest.yaml": man("m", [("a", "pa"), ("b", "b")]), "m/d.yaml": imp}
    write_tree(d, files)
    weaver(["registry", "package", "-r", "a", "--v2", "--resolved-registry-uri", "resolved.yaml", "-o", "pa", "--quiet", "--skip-policies"], d)
    r = weaver(["registry", "resolve", "-r", "m", "-f", "json", "--quiet", "--skip-policies"], d)
    got = [g["id"] for g in json.loads(r.out)["groups"] if g["id"].endswith("a.g")] if r.out.strip() else []
    if len(got) == 1 and r.rc == 0: return None
    if len(got) == 2: return dict(case=files, diff=["the group a.g is contained twice"], finding=f"D03-{key}")
    return dict(case=files, diff=[f"expected a.g once, got {got}: {r.err[-500:]}"])
