"""P01: replays the registries, policies and runs of spec/Policy.tla into `weaver registry check`, `resolve`, `generate` and `package`."""
import json, random
from . import core
from .core import weaver

STAGES = ["before_resolution", "after_resolution", "comparison_after_resolution"]

class World:
    def __init__(s, case, seed): s.case, s.run = case, case["run"]; s.rng = random.Random(seed); s.n = 0
    def mark(s, m): return f"mark{m}!"
    # ---- registries
    def metric(s, name, brief, v2):
        c = dict(brief=brief, stability="stable", instrument="counter", unit="1", **(dict(requirement_level="recommended") if v2 else {}))
        return dict(c, name=name) if v2 else dict(c, id="metric." + name, type="metric", metric_name=name)
    def text(s, fmt, name, marks):
        """A definition file; each mark is the brief or note of something that survives resolution."""
        v2 = fmt == "v2"; items = [s.metric(f"{name}.m0", "plain", v2)]
        for m in marks:
            t = s.metric(f"{name}.m{m}", s.mark(m), v2)
            if s.rng.random() < .4: t["brief"] = "b"; t["note"] = s.mark(m)
            items.append(t)
            if s.rng.random() < .3: items.append(s.metric(f"{name}.again{m}", s.mark(m), v2))
        s.rng.shuffle(items)
        return dict(file_format="definition/2", metrics=items) if v2 else dict(groups=items)
    # ---- policies
    def cond(s, r):
        m = json.dumps(s.mark(r["m"])); i = f"has_in({m})"; d = f"has_data({m})"
        return {"mark": i, "always": "true", "none": f"not {i}", "gone": f"{d}\n  not {i}", "kept": f"{d}\n  {i}"}[r["cond"]]
    def finding(s, f):
        """The object a rule yields, and what is reported for it."""
        tag = f"{f['cond']}_{f['m']}_{f['lvl'][:4]}"; form = f["form"]
        if form == "unified":
            o = dict(id=f"u_{tag}" if f["m"] == 1 else "u_any", message=f"found {tag}", level=f["lvl"], context=dict(q="a \"b\"") if f["cond"] in ("mark", "kept") else dict(m=f["m"], q="a \"b\""))
            return o, dict(id=o["id"], message=o["message"], level=f["lvl"], context=o["context"], signal_type=None, signal_name=None)
        if form == "signal":
            o = dict(id=f"s_{tag}" if f["m"] == 1 else "s_any", message=f"found {tag}", level=f["lvl"], signal_type="metric", signal_name=f"a.{tag}" if f["m"] == 2 else "a.any")
            return o, dict(id=o["id"], message=o["message"], level=f["lvl"], context=None, signal_type="metric", signal_name=o["signal_name"])
        if form == "advice":
            o = dict(type="advice", advice_type="a_any" if f["m"] == 2 else f"a_{tag}", advice_level=f["lvl"], advice_context=dict(k=f["m"]), message=f"found {tag}")
            return o, dict(id=o["advice_type"], message=o["message"], level=f["lvl"], context=o["advice_context"], signal_type=None, signal_name=None)
        o = dict(type="semconv_attribute", id=f"t_{tag}", category="c", group=f"g{f['m']}", attr=f"at.{f['cond']}")
        return o, dict(id="semconv_attribute", message=f"id={o['id']}, category=c, group={o['group']}, attr={o['attr']}", level="violation",
                       context=dict(id=o["id"], category="c", group=o["group"], attr=o["attr"]), signal_type=None, signal_name=None)
    def rule(s, r):
        if r["form"] == "bad": o = s.rng.choice([dict(id="x", message="no level"), dict(id="x", level="violation"), dict(type="semconv_attribute", id="x", group="g", attr="a"), dict(type="other", id="x", message="m", level="violation"), dict(id="x", message="m", level="fatal"), "just text"])
        else: o = s.finding(dict(cond=r["cond"], m=0 if r["cond"] == "always" else r["m"], lvl="violation" if r["form"] == "attribute" else r["lvl"], form=r["form"]))[0]
        body = s.cond(r)
        if s.rng.random() < .5: return f"deny contains {json.dumps(o)} if {{\n  {body}\n}}\n"
        return f"deny contains v if {{\n  {body}\n  v := {json.dumps(o)}\n}}\n"
    def policy(s, stage, rules):
        pkg = stage if stage in STAGES else s.rng.choice(["other", "before_resolutions", "after_resolution.extra", "live_check_advice", "resolution"])
        s.n += 1; k = s.n; out = f"package {pkg}\nimport rego.v1\n"
        if s.rng.random() < .3:       # the helper functions come from a package of their own, in another file of the same place
            out += "".join(s.rule(r) for r in rules).replace("has_", f"data.helpers{k}.has_")
            return {f"p{k}.rego": out, f"h{k}.rego": f"package helpers{k}\nimport rego.v1\n" + HELP.replace("has_", "has_")}
        return {f"p{k}.rego": out + "".join(s.rule(r) for r in rules).replace("has_", f"p{k}_has_") + HELP.replace("has_", f"p{k}_has_")}
    def policies(s):
        """place -> {file name: text}"""
        by = {}
        for r in s.case["rules"]: by.setdefault((r["place"], r["stage"], s.rng.random() < .5), []).append(r)
        out = {}
        for (place, stage, _), rules in by.items(): out.setdefault(place, {}).update(s.policy(stage, rules))
        def broken(place): s.n += 1; out.setdefault(place, {})[f"p{s.n}.rego"] = s.rng.choice(["package before_resolution\ndeny contains {", "no rego", "package after_resolution\nimport rego.v1\ndeny contains x if { y"])
        if s.run["broken"] != "-": broken(s.run["broken"])
        if s.run["bbroken"]: broken("base")
        return out

HELP = 'has_in(t) if {\n  walk(input, [_, t])\n}\nhas_data(t) if {\n  walk(data.groups, [_, t])\n}\nhas_data(t) if {\n  walk(data.registry, [_, t])\n}\n'

def expected(w):
    """(what, where, details) of everything that must be reported, each once."""
    out = []
    for d in w.case["report"]:
        at = "r" if d["at"] == 0 else w.path[d["at"] - 1]
        if d["k"] == "finding": out.append(("finding", at, json.dumps(w.finding(d["f"])[1], sort_keys=True)))
        elif d["k"] == "unstable": out.append(("unstable", at, ""))
        elif d["k"] == "invalid": out.append(("invalid", at, ""))
        else: out.append((d["k"], "", ""))
    return sorted(out)

def reported(w, diag):
    out = []
    for d in diag:
        e = d["error"]; t = e.get("type") if isinstance(e, dict) else None
        if t == "policy_violation":
            v = {k: x for k, x in e["violation"].items() if k != "type"}
            out.append(("finding", e["provenance"], json.dumps(v, sort_keys=True)))
        elif e == "Deprecated": out.append(("deprecated", "", ""))
        elif t == "invalid_policy_file": out.append(("invalid", e["file"], ""))
        elif core.find_errors(e, {"UnstableFileFormat"}): out.append(("unstable", core.find_errors(e, {"UnstableFileFormat"})[0][1]["provenance"], ""))
        elif core.find_errors(e, {"UnresolvedAttributeRef"}): out.append(("unresolved", "", ""))
        elif "BeforeResolutionUnsupported" in json.dumps(e): out.append(("unsupported", "", ""))
        elif "invalid_policy_file" in json.dumps(e): out.append(("broken", "", ""))
        else: out.append(("other", "", json.dumps(e)[:300]))
    return sorted(out)

def run_case(S, i, case, tag=""):
    w = World(case, f"{core.SEED}-{tag}-{i}"); rng, run = w.rng, w.run; d = S.dir(f"p{tag}{i}")
    try:
        stems = rng.sample(["a", "b", "sub/c", "sub/deep/d", "z"], len(case["files"])); w.path = [f"r/{x}.yaml" for x in stems]
        files = {}; man = dict(schema_url="https://x.io/r/1.0.0", description="d")
        for j, f in enumerate(case["files"]): files[w.path[j]] = w.text(f["fmt"], f"f{j}", f["marks"])
        if run["fatal"]:
            t = files[w.path[0]]; v2 = "groups" not in t; t["metrics" if v2 else "groups"][0]["attributes"] = [dict(ref="no.such", requirement_level="required")]
        pol = w.policies(); opts = []; toml = []; conf = []
        if "dep" in pol or rng.random() < .15:
            man["dependencies"] = [dict(schema_url="https://x.io/dep/1.0.0", registry_path="dep")]
            files["dep/manifest.yaml"] = dict(schema_url="https://x.io/dep/1.0.0", description="d")
            files["dep/d.yaml"] = w.text("v1", "dep", [])
            for n, t in pol.get("dep", {}).items(): files["dep/" + n] = t
        files["r/manifest.yaml"] = man
        if run["base"]:
            files["base/manifest.yaml"] = dict(man, schema_url=rng.choice(["https://x.io/r/0.9.0", man["schema_url"], "https://x.io/other/1.0.0"]))
            files["base/b.yaml"] = w.text("v1", "f0", run["bmarks"])
            for n, t in pol.get("base", {}).items(): files["base/" + n] = t
        else: pol.pop("base", None)
        def put(at, n, t):
            """Policies in different directories may have the same file name."""
            k = f"{at}/" + rng.choice(["policy.rego", n])
            if k in files: k = f"{at}/{n}"
            files[k] = t; return k
        for n, t in pol.get("root", {}).items(): put("r", n, t)
        for n, t in pol.get("sub", {}).items(): put("r/" + rng.choice(["sub", "policies/x", "k"]), n, t)
        for n, t in pol.get("hidden", {}).items(): files[rng.choice([f"r/.pol/{n}", f"r/.{n}"])] = t
        cli = any(p in pol for p in ("file", "dir", "dirhidden"))
        for n, t in pol.get("file", {}).items(): opts += [rng.choice(["-p", "--policy"]), put(rng.choice(["pf", "pg"]), n, t)] * rng.choice([1, 1, 1, 2])
        if "dir" in pol or "dirhidden" in pol:
            files["pd/keep/README.md"] = "x"; opts += ["-p", "pd"]
            for n, t in pol.get("dir", {}).items(): put(rng.choice(["pd", "pd/keep", "pd/x/y"]), n, t)
            for n, t in pol.get("dirhidden", {}).items(): files[rng.choice([f"pd/.h/{n}", f"pd/keep/.{n}"])] = t
        for n, t in pol.get("conf", {}).items():
            if rng.random() < .5: files["cf/" + n] = t; conf.append("cf/" + n)
            else: files[f"cd{len(conf)}/sub/{n}"] = t; conf.append(f"cd{len(conf)}")
        P = ["[policy]"] + ([f"paths = {json.dumps(conf)}"] if conf else [])
        if run["skip"] in ("conf", "overridden"): P.append("skip = true")
        if len(P) > 1: toml += P
        if run["skip"] == "cli": opts += [rng.choice(["--skip-policies", "--skip-policies=true"])]
        if run["skip"] == "overridden": opts += ["--skip-policies=false"]
        if rng.random() < .3: opts += ["--display-policy-coverage"] if run["cmd"] == "check" else []
        v2 = run["v2"] or run["cmd"] == "package"
        if v2 and run["cmd"] == "package": opts += [rng.choice(["--v2", "--v2=true"])]
        elif v2: opts += ["--v2"]
        if run["base"] and run["cmd"] == "check": opts += ["--baseline-registry", "base"]
        core.write_tree(d, files)
        if toml: (d / ".weaver.toml").write_text("\n".join(toml) + "\n")
        args = ["registry", run["cmd"], "-r", "r", *opts, "--diagnostic-format", "json", "--quiet"] + (["--future"] if run["future"] else [])
        if run["cmd"] == "generate":
            core.write_tree(d, {"templates/t/weaver.yaml": {"templates": [{"template": "*.j2", "filter": ".", "application_mode": "single"}]}, "templates/t/x.txt.j2": "done"}); args += ["t", "out"]
        if run["cmd"] == "package": args += ["--resolved-registry-uri", "https://x.io/p.yaml", "-o", "out"]
        if run["cmd"] == "resolve": args += ["-f", "json", "-o", "out/r.json"]; (d / "out").mkdir()
        r = weaver(args, d, env=dict(RAYON_NUM_THREADS=rng.choice(["1", "2", "8"])))
        bad = []
        if r.crashed: bad.append(f"crash: {r.err[-300:]}")
        got, want = reported(w, core.parse_diag(r.err)), expected(w)
        if run["fatal"]: got = [x for x in got if x[0] not in ("unstable", "unsupported")]; want = [x for x in want if x[0] not in ("unstable", "unsupported")]
        if run["cmd"] != "check" and (run["fatal"] or any(x[0] == "broken" for x in want)):
            got, want = ([x for x in y if x[0] in ("unresolved", "broken", "other")] for y in (got, want))
        if got != want: bad.append(f"reported, and not expected: {[x for x in got if got.count(x) > want.count(x)][:5]}; expected, and not reported: {[x for x in want if want.count(x) > got.count(x)][:5]}; other diagnostics {len(got)}")
        if (r.rc != 0) != case["fails"]: bad.append(f"exit code {r.rc}, expected {'failure' if case['fails'] else 'success'}")
        if run["cmd"] != "check":
            have = any(f.is_file() for f in (d / "out").rglob("*")) if (d / "out").is_dir() else False
            if have != case["written"]: bad.append(f"files were{'' if have else ' not'} written")
        if bad: return dict(case=case, args=args, files={k: v for k, v in files.items() if k.endswith(".rego")}, diff=bad)
    finally: core.shutil.rmtree(d, ignore_errors=True)

def check_P01(c):
    r = core.tlc("Policy", "Policy.mc.cfg", consts={"MaxFiles": 2, "MaxRules": 3 if c.thorough else 2}, workers=8, timeout=3000, mem="12g"); c.model(r, "all pairs of rules of a pool, files with and without marks, kinds of runs, in every order of evaluation")
    k = 10 if c.thorough else 1; cases = []
    for marks, mf, mr, n in ((1, 2, 2, 600), (3, 3, 6, 1400), (4, 5, 12, 800)):
        r = core.tlc_many("Policy", "Policy.gen.cfg", n * k, procs=8, seed=core.SEED + marks, consts={"Marks": marks, "MaxFiles": mf, "MaxRules": mr}, depth=6)
        c.generated(r, f"random, up to {mf} files, {mr} rules, {marks} marks"); cases += r.cases
    with core.Scratch() as S: c.replay(cases, lambda i, x: run_case(S, i, x), "registry checked against policies")
    n = {}
    for x in cases:
        for y in {e["k"] for e in x["report"]} or {"nothing"}: n[y] = n.get(y, 0) + 1
        n[x["run"]["cmd"]] = n.get(x["run"]["cmd"], 0) + 1
    c.extra["outcomes"] = n
