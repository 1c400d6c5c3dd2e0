"""C01: replays the layers of spec/Config.tla (project files, command line, environment) into every command, and reads off which value it worked with."""
import http.client, json, os, random, re, socket, subprocess, threading, time
from . import core, otlp, served
from .core import weaver, write_tree

# ------------------------------------------------------------ what stands behind the values
# The cases of one check share these files (nothing writes into them); F is their directory.
LIST = '{% for x in ctx.l %}[{{ x }}]{% endfor %}'
METRICS = '{v: (if has("groups") then "v1" else "v2" end), l: (if has("groups") then [.groups[].metric_name | values] else [.registry.metrics[].name] end)}'
POLICY = '''package after_resolution
import rego.v1
deny contains {"id": "p@", "message": concat(":", ["v1", g.metric_name]), "level": "information"} if {
  some g in input.groups
  g.metric_name
}
deny contains {"id": "p@", "message": concat(":", ["v2", m.name]), "level": "information"} if {
  some m in input.registry.metrics
}
'''
ADVICE = '''package live_check_advice
import rego.v1
deny contains {"id": concat("_", ["adv", "@", object.get(data, "extra", "none"), object.get(data, "pre", "none")]), "message": "m", "level": "improvement", "context": {}} if {
  input.sample.attribute
}
'''
def metric1(n): return dict(id="metric." + n, type="metric", metric_name=n, instrument="counter", unit="1", brief="b", stability="stable")
def metric2(n): return dict(name=n, instrument="counter", unit="1", brief="b", stability="stable")
def single(t, filt): return {"weaver.yaml": dict(templates=[dict(template=t, filter=filt, application_mode="single")])}
def under(p, d): return {f"{p}/{k}": v for k, v in d.items()}
def diag_templates(p, n):
    out = {}
    for f in ("ansi", "json", "gh_workflow_command"): out |= under(f"{p}/{f}", {**single("errors.txt.j2", '[.[] | {e: (.error | tojson)}]'), "errors.txt.j2": f"@@{n};{f};" + "{% for x in ctx %}{{ x.e }}\n{% endfor %}@@\n"})
    return out
def text_templates(p, n, name, fmts, body, filt="."):
    out = {}
    for f in fmts: out |= under(f"{p}/{f}", {**single(name, filt), name: f"##{n};{f};{body}##\n"})
    return out
DUMP = '{s: tojson}'
def stats(p, n): return text_templates(p, n, "stats.txt.j2", ("text", "custom"), "{{ ctx.s }}", DUMP)
def diffs(p, n): return text_templates(p, n, "diff.txt.j2", ("ansi", "custom"), "{{ ctx.s }}", DUMP)
def lives(p, n): return text_templates(p, n, "live_check.txt.j2", ("ansi", "custom"), "{{ ctx.s }}", DUMP)
def generates(p, n):
    out = {}
    for t in ("", "/a", "/b"): out |= under(f"{p}{t}", {**single("o.txt.j2", METRICS), "o.txt.j2": f"@@{n};{t[1:]};" + "{{ ctx.v }};" + LIST + "@@"})
    return out
def snippets(p, n):
    out = {}
    for t in ("a", "b"): out |= under(f"{p}/{t}", {"weaver.yaml": {}, "snippet.md.j2": f"~~{n};{t};" + "{% if group is defined %}v1{% else %}v2{% endif %};{{ attribute_registry_base_url or '' }}~~"})
    return out

class Fixtures:
    def __init__(s, S):
        s.d = S.dir("fix"); F = str(s.d); files = {}
        man = lambda n, **k: dict(schema_url=f"https://x.io/{n}/1.0.0", description="d", **k)
        files |= under("dep", {"manifest.yaml": man("dep"), "d.yaml": dict(groups=[metric1("dep.x"), metric1("dep.y"), metric1("dep.z"), metric1("dep.w")])})
        for n, k in (("a", 1), ("b", 8)):
            files |= under(f"reg_{n}", {"manifest.yaml": man("r" + n, dependencies=[dict(schema_url="https://x.io/dep/1.0.0", registry_path=F + "/dep")]),
              "m.yaml": dict(file_format="definition/2", attributes=[dict(key="x1.y1_z1-w1", type="string", brief="b", examples=["e"], stability="stable")], metrics=[metric2(f"only.{n}")] + [metric2(f"more.{n}{i}") for i in range(1, k)])})
            files[f"linked/{n}/l.yaml"] = dict(groups=[metric1(f"link.{n}"), metric1(f"link2.{n}")])
            files |= under(f"pol_{n}", {"deep/p.rego": POLICY.replace("@", n)}) | under(f"adv_{n}", {"p.rego": ADVICE.replace("@", n)}) | {f"data_{n}/extra.json": f'"x{n}"', f"pre_{n}.jq": '{"pre": "q%s"}' % n}
            files |= diag_templates(f"dt_{n}", n) | stats(f"st_{n}", n) | diffs(f"df_{n}", n) | lives(f"lv_{n}", n) | generates(f"tp_{n}", n) | snippets(f"sn_{n}", n)
            files[f"in_{n}"] = json.dumps([dict(attribute=dict(name=f"In{n}", value=1))])
        files |= under("reg_broken", {"manifest.yaml": man("rx"), "m.yaml": dict(groups=[dict(metric1("only.x"), attributes=[dict(ref="no.such")])])})
        files |= under("base", {"manifest.yaml": man("base"), "m.yaml": dict(groups=[metric1("gone.x")])})
        write_tree(s.d, files)
        for n in "ab": os.symlink(f"{F}/linked/{n}", f"{F}/reg_{n}/linked")
    def __str__(s): return str(s.d)

# what lies in the working directory: the places the defaults name
def home(cmd):
    f = diag_templates("diagnostic_templates", "d")
    if cmd == "stats": f |= stats("stats_templates", "d")
    if cmd == "diff": f |= diffs("diff_templates", "d")
    if cmd == "live-check": f |= lives("live_check_templates", "d")
    if cmd == "generate": f |= generates("templates", "d")
    if cmd == "update-markdown":
        f |= snippets("templates", "d")
        for d in ("ma", "mb"):
            for r in "ab": f |= {f"{d}/v1{r}.md": f"<!-- semconv metric.only.{r} -->\n<!-- endsemconv -->\n", f"{d}/v2{r}.md": f"<!-- semconv registry.metrics.only.{r} -->\n<!-- endsemconv -->\n"}
    return f

class Case:
    def __init__(s, case, F, seed):
        if not case["cli"]: case["cli"] = {}      # TLC prints an empty function as []
        for p in case["places"]: p["set"] = p["set"] or {}
        s.c, s.F, s.cmd, s.eff = case, str(F), case["cmd"], case["eff"]; s.rng = random.Random(seed); s.ports = {}
    def on(s, k): return s.eff[k] == "true"
    # ---- values as they are written
    def text(s, k, v):
        F = s.F; sec, _, key = k.rpartition(".")
        if v in ("true", "false"): return v == "true"
        if k == "registry.path": return "" if v == "empty" else f"{F}/reg_{v}"
        if k == "policy.paths": return {"none": [], "a": [f"{F}/pol_a"], "b": [f"{F}/pol_b/deep/p.rego"], "ab": [f"{F}/pol_a/deep", f"{F}/pol_b"]}[v]
        if k == "diagnostics.template": return f"{F}/dt_{v}"
        if key == "templates": return f"{F}/" + {"generate": "tp", "stats": "st", "diff": "df", "update-markdown": "sn", "live-check": "lv"}[sec] + "_" + v
        if key == "markdown_dir": return "m" + v
        if key == "output": return "out_" + v
        if key == "resolved_registry_uri" or key == "attribute_registry_base_url": return f"https://u.io/{v}"
        if key == "advice_policies": return f"{F}/adv_{v}"
        if key == "advice_data": return f"{F}/data_{v}/*.json"
        if key == "advice_preprocessor": return f"{F}/pre_{v}.jq"
        if key == "input_source": return f"{F}/in_{v}"
        if key in ("endpoint", "otlp_logs_endpoint"): return f"http://127.0.0.1:{s.port(key, v)}"
        if key in ("grpc_port", "admin_port"): return s.port(key, v)
        if key == "grpc_address": return {"a": "127.0.0.1", "b": "127.0.0.2"}[v]
        if key == "inactivity_timeout": return {"a": 3, "b": 0}[v]      # 0: never
        if key == "bind": return f"127.0.0.1:{s.port(key, v)}"
        if key == "cors_origins": return {"a": "https://a.io", "b": "https://b.io,https://c.io"}[v]
        if key == "finding_filters": return [dict(exclude=[{"a": "missing_attribute", "b": "invalid_format"}[v]])]
        if key == "finding_level_overrides": return [dict(ids=["missing_attribute", "invalid_format", "missing_namespace"], level={"a": "information", "b": "improvement"}[v])]
        return v
    def port(s, key, v):
        if (key, v) not in s.ports: s.ports[key, v] = otlp.ports(1)[0]
        return s.ports[key, v]
    def opts(s):
        out = []; rng = s.rng
        for k, v in s.c["cli"].items():
            sec, _, key = k.rpartition("."); t = s.text(k, v); eq = lambda f, x: rng.choice([[f, str(x)], [f"{f}={x}"]])
            if k in ("generate.target", "generate.output", "update-markdown.markdown_dir"): continue
            if k == "policy.paths":
                for p in t: out += eq(rng.choice(["-p", "--policy"]), p) if rng.random() < .5 else ["--policy", p]
                continue
            f = {"registry.path": "--registry", "policy.skip": "--skip-policies", "live-check.emit.otlp_logs": "--emit-otlp-logs", "live-check.otlp.grpc_address": "--otlp-grpc-address", "live-check.otlp.grpc_port": "--otlp-grpc-port"}.get(k) \
                or ("--diagnostic-" + key if sec == "diagnostics" else "--" + key.replace("_", "-"))
            if isinstance(t, bool):
                b = str(t).lower(); out += [f"{f}={b}"] if not t or rng.random() < .5 else [f]
            else: out += eq(f, t)
        return out
    def positional(s):
        """The positional arguments: a later one can only be given together with those before it."""
        c = s.c["cli"]; t = lambda k: str(s.text(k, c[k]))
        if s.cmd == "generate": return ([t("generate.target")] + ([t("generate.output")] if "generate.output" in c else [])) if "generate.target" in c else []
        return [t("update-markdown.markdown_dir")] if "update-markdown.markdown_dir" in c else []
    def toml(s, st):
        """A project file; the order of sections and keys, and the way they are spelled, differ."""
        secs = {}
        for k, v in st.items(): sec, _, key = k.rpartition("."); secs.setdefault(sec, []).append((key, s.text(k, v)))
        def val(x): return "{" + ", ".join(f"{a} = {val(b)}" for a, b in x.items()) + "}" if isinstance(x, dict) else "[" + ", ".join(map(val, x)) + "]" if isinstance(x, list) else json.dumps(x)
        out = []; L = list(secs.items()); s.rng.shuffle(L)
        for sec, kv in L:
            s.rng.shuffle(kv); out.append(f"[{sec}]"); out += [f"{a} = {val(b)}" for a, b in kv]
        return "# project\n" + "\n".join(out) + "\n"

BROKEN = ["[registry\npath = 1", "registry = [", "[registry]\npath = \"a\"\npath = \"b\"", "[registry]\nv2 = \"maybe\"", "= 3"]

# ------------------------------------------------------------ what a run must show
def metrics(w):
    """Names of the metrics of the registry the command works with, as v1 or v2."""
    r = w.eff["registry.path"]
    return sorted([f"only.{r}"] + ([f"more.b{i}" for i in range(1, 8)] if r == "b" else []) + ([f"link.{r}", f"link2.{r}"] if w.on("registry.follow_symlinks") else [])
                  + (["dep.w", "dep.x", "dep.y", "dep.z"] if w.on("registry.include_unreferenced") else []))
def form(w): return "v2" if w.on("registry.v2") else "v1"
def findings(w):
    if w.on("policy.skip") or w.eff["policy.paths"] == "none": return []
    return sorted((f"p{p}", f"{form(w)}:{m}") for p in w.eff["policy.paths"] for m in metrics(w))
def error_of(w):
    """A reason to end at once."""
    e = w.eff
    if w.cmd == "package" and e["package.resolved_registry_uri"] == "": return "config"
    if w.cmd == "package" and not w.on("registry.v2"): return "v2"
    if w.cmd == "update-markdown" and e["update-markdown.markdown_dir"] == "": return "config"
    if w.cmd == "update-markdown" and e["update-markdown.target"] == "": return "config"
    return {"d": "git", "broken": "unresolved"}.get(e["registry.path"])

BLOCK = re.compile(r"@@([^;@]*);([^;@]*);(.*?)@@", re.S)       # diagnostics, generated files
REPORT = re.compile(r"##([^;#]*);([^;#]*);(.*?)##", re.S)     # reports
def blocks(text): return [m.groups() for m in BLOCK.finditer(text)]
def reports(text): return [m.groups() for m in REPORT.finditer(text)]
def kind(e):
    t = json.dumps(e)
    for k, name in (("policy_violation", "finding"), ("UnresolvedAttributeRef", "unresolved"), ("UnstableFileFormat", "unstable"), ("git_error", "git"), ("GitError", "git"), ("PackagingRequiresV2", "v2"), ("Config", "config"), ("Markdown", "markdown")):
        if k in t: return name
    return t[:200]
def diagnostics(text):
    """(template, format, kinds, findings) of the diagnostics in a stream."""
    out = []
    for t, f, body in blocks(text):
        try: es = [json.loads(x) for x in body.splitlines() if x.strip()]
        except ValueError: es = [body]
        out.append((t, f, sorted({kind(e) for e in es}), sorted((e["violation"]["id"], e["violation"]["message"]) for e in es if isinstance(e, dict) and e.get("type") == "policy_violation")))
    return out

def read(p): return p.read_text() if p.is_file() else None
def names(text): return sorted(set(re.findall(r"\b(?:only|more|link2?|dep)\.[a-z]\d?\b", text)))

class Listener(threading.Thread):
    """Counts connections to the ports of endpoints, and refuses to talk."""
    def __init__(s, ports):
        super().__init__(daemon=True); s.ports, s.hits, s.stop = ports, set(), False; s.socks = []
        for v, p in ports.items():
            k = socket.socket(); k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); k.bind(("127.0.0.1", p)); k.listen(50); k.setblocking(False); s.socks.append((v, k))
        s.start()
    def run(s):
        while not s.stop: s.poll(); time.sleep(.005)
    def poll(s):
        for v, k in s.socks:
            try: c, _ = k.accept(); s.hits.add(v); c.close()
            except OSError: pass
    def end(s):
        s.stop = True; s.join(); s.poll()
        for _, k in s.socks: k.close()
        return sorted(s.hits)

def where(w, key, wd):
    """The directory that an output setting names."""
    v = w.eff[key]; return wd / ("output" if v == "d" else "out_" + v)

# ---- what each command does with its own settings: (key, expected, observed) triples
def see_generate(w, wd, r, ok):
    got = {str(p.relative_to(wd)): p.read_text() for d in ("output", "out_a", "out_b") for p in (wd / d).rglob("*") if p.is_file()}
    want = {f"{where(w, 'generate.output', wd).name}/o.txt": f"@@{w.eff['generate.templates']};{w.eff['generate.target']};{form(w)};{''.join(f'[{m}]' for m in metrics(w))}@@"} if ok else {}
    got = {k: re.sub(r"(?:\[[\w.]+\])+", lambda m: "".join(f"[{x}]" for x in sorted(m.group()[1:-1].split("]["))), v) for k, v in got.items()}
    return [("generated files", want, got)]
def report(w, wd, r, name, builtin):
    """The report of stats, diff: in a directory, or on standard output."""
    e = w.eff; c = w.cmd; outs = {v: {p.name: p.read_text() for p in (wd / f"out_{v}").rglob("*") if p.is_file()} for v in "ab"}
    got = {("dir " + v): x for v, x in outs.items() if x}
    body = r.out if not got else "".join("".join(x.values()) for x in got.values())
    return sorted(got), [(t, g) for t, g, b in reports(body)], re.sub(BLOCK, "", body)
def see_stats(w, wd, r, ok):
    e = w.eff; got, tag, body = report(w, wd, r, "stats", ("json",))
    if not ok: return [("stats written", ([], []), (got, tag))]
    f = e["stats.format"]
    out = [("where the stats went", ["dir " + e["stats.output"]] if e["stats.output"] else [], got), ("template and format of the stats", [] if f == "json" else [(e["stats.templates"], f)], tag)]
    txt = body if f == "json" else "".join(b for t, g, b in reports(body))
    try: st = json.JSONDecoder().raw_decode(txt[txt.index("{"):])[0]
    except ValueError as x: return out + [("stats", "json", txt[:300])]
    n = len(metrics(w)); have = st.get("version"), (sum(g["group_breakdown"].get("metric", {}).get("Metric", {}).get("common_stats", {}).get("count", 0) for g in st["registry_stats"]) if st.get("version") == "v1" else next((v["common"]["count"] for k, v in walk(st) if k == "metrics"), None))
    return out + [("stats", (form(w), n), have)]
def walk(x):
    if isinstance(x, dict):
        for k, v in x.items(): yield k, v; yield from walk(v)
    elif isinstance(x, list):
        for v in x: yield from walk(v)
def see_diff(w, wd, r, ok):
    e = w.eff; got, tag, body = report(w, wd, r, "diff", ("json",))
    if not ok: return [("diff written", ([], []), (got, tag))]
    f = e["diff.format"]; txt = body if f == "json" else "".join(b for t, g, b in reports(body))
    try: st = json.JSONDecoder().raw_decode(txt[txt.index("{"):])[0]; have = sorted(m["name"] for m in st["changes"]["metrics"] if m["type"] == "added"), "v2" if "attribute_groups" in st["changes"] else "v1"
    except (ValueError, KeyError) as x: have = txt[:300]
    return [("where the diff went", ["dir " + e["diff.output"]] if e["diff.output"] else [], got), ("template and format of the diff", [] if f == "json" else [(e["diff.templates"], f)], tag), ("diff", (metrics(w), form(w)), have)]
def see_package(w, wd, r, ok):
    got = {d: (sorted(p.name for p in (wd / d).iterdir()), names(read(wd / d / "resolved.yaml") or ""), re.findall(r"https://u.io/\w", read(wd / d / "manifest.yaml") or "")) for d in ("output", "out_a", "out_b") if (wd / d).is_dir()}
    want = {where(w, "package.output", wd).name: (["manifest.yaml", "resolved.yaml"], metrics(w), [f"https://u.io/{w.eff['package.resolved_registry_uri']}"])} if ok and not findings(w) else {}
    return [("package", want, got)]
def see_markdown(w, wd, r, ok):
    e = w.eff; got = {f"{d}/{p.name}": m for d in ("ma", "mb") for p in (wd / d).glob("*.md") for m in re.findall("~~(.*?);(.*?);(.*?)~~", p.read_text())}
    reg = e["registry.path"]; u = e["update-markdown.attribute_registry_base_url"]
    want = {f"m{e['update-markdown.markdown_dir']}/{form(w)}{reg}.md": (e["update-markdown.templates"], e["update-markdown.target"], "v1;" + (f"https://u.io/{u}" if u else ""))} if ok and not w.on("update-markdown.dry_run") else {}
    return [("updated files", {k: v[:2] + (v[2].split(";")[1],) for k, v in want.items()}, {k: v[:2] + (v[2].split(";")[1],) for k, v in got.items()})]
def see_emit(w, wd, r, ok):
    e = w.eff; std = ok and w.on("emit.stdout")
    return [("telemetry on standard output", (std, metrics(w) if std else []), ("otel.weaver.emit" in r.out, names(re.sub(r"@@.*?@@", "", r.out, flags=re.S)))), ("connections", [e["emit.endpoint"]] if ok and not std and e["emit.endpoint"] != "d" else [], w.hits)]
def see_resolve(w, wd, r, ok):
    t = read(wd / "r.json"); j = json.loads(t) if t else None
    got = None if j is None else ("v1", sorted(g["metric_name"] for g in j["groups"] if g.get("metric_name"))) if "groups" in j else ("v2", sorted(m["name"] for m in j["registry"]["metrics"]))
    return [("resolved registry", (form(w), metrics(w)) if ok else None, got)]

# live-check: one attribute that the registry does not have
RANK = ["none", "information", "improvement", "violation"]
def live_findings(w):
    """(id, level) of the findings that the report must have."""
    e = w.eff; text = e["live-check.input_format"] == "text"
    out = [("missing_attribute", "violation")]
    if e["live-check.advice_policies"]:
        d, p = e["live-check.advice_data"], e["live-check.advice_preprocessor"]
        out.append((f"adv_{e['live-check.advice_policies']}_{'x' + d if d else 'none'}_{'q' + p if p else 'none'}", "improvement"))
    else: out += [("missing_namespace", "improvement"), ("invalid_format", "violation")]
    o = e["live-check.finding_level_overrides"]
    if o: out = [(i, {"a": "information", "b": "improvement"}[o] if i in ("missing_attribute", "invalid_format", "missing_namespace") else l) for i, l in out]
    f = e["live-check.finding_filters"]
    return sorted(x for x in out if x[0] != {"a": "missing_attribute", "b": "invalid_format"}.get(f))
def sample_name(w):
    raw = w.eff["live-check.input_source"]
    return f"In{raw}" if w.eff["live-check.input_format"] == "json" else json.dumps([dict(attribute=dict(name=f"In{raw}", value=1))])
def see_live(w, wd, r, ok):
    e = w.eff; outs = {v: {p.name: p.read_text() for p in (wd / f"out_{v}").rglob("*") if p.is_file()} for v in "ab"}; got = sorted("dir " + v for v, x in outs.items() if x)
    body = "".join("".join(x.values()) for x in outs.values()) if got else r.out
    f = e["live-check.format"]; docs = []; tags = []; dec = json.JSONDecoder()
    t = re.sub(BLOCK, "", body)
    if f == "json":
        i = t.find("{\n")
        while 0 <= i < len(t):
            try: x, j = dec.raw_decode(t[i:]); docs.append(x); i = t.find("{\n", i + j)
            except ValueError: i = t.find("{\n", i + 1)
    else:
        for n, g, x in reports(t): docs.append(json.loads(x) or {}); tags.append((n, g))
    if not ok: return [("report", (got, 0), ([], len(docs))), ("connections", [], w.hits)]
    one = e["live-check.output"] != "" or w.on("live-check.no_stream"); st = not w.on("live-check.no_stats")
    out = [("where the report went", ["dir " + e["live-check.output"]] if e["live-check.output"] else [], got)]
    if f != "json": out.append(("template and format of the report", {(e["live-check.templates"], f)}, set(tags)))
    sample = next((s for d in docs for s in (d.get("samples") or [d]) if "attribute" in s), {}).get("attribute", {})
    out.append(("one document", one, any("samples" in d for d in docs)))
    out.append(("attribute checked", sample_name(w), sample.get("name")))
    out.append(("findings", live_findings(w), sorted((a["id"], a["level"]) for a in (sample.get("live_check_result") or {}).get("all_advice", []))))
    out.append(("statistics", st, any("total_entities" in (d.get("statistics") or d) for d in docs)))
    logs = w.on("live-check.emit.otlp_logs"); std = w.on("live-check.emit.otlp_logs_stdout")
    out.append(("findings logged on standard output", logs and std and bool(live_findings(w)), "weaver.live_check.finding" in r.out))
    ep = e["live-check.emit.otlp_logs_endpoint"]
    out.append(("connections", [ep] if logs and not std and ep != "d" and live_findings(w) else [], w.hits))
    return out
SEE = {"generate": see_generate, "stats": see_stats, "diff": see_diff, "package": see_package, "update-markdown": see_markdown, "emit": see_emit, "resolve": see_resolve, "live-check": see_live, "check": lambda w, wd, r, ok: []}

def outcome(w):
    """(diagnostics expected: kinds or None when nothing is shown, exit code) of a run that is not refused."""
    e = w.eff; err = error_of(w); base = ["unstable"] * 0
    if err: return [err], 1
    warn = {"unstable", "warning"}
    f = {"finding"} if w.cmd in ("check", "resolve", "generate", "package", "live-check") and findings(w) else set()
    if w.cmd in ("stats", "diff"): return None, 0
    if w.cmd == "update-markdown": return ["markdown"], 1
    if w.cmd == "emit" and not w.on("emit.stdout"): return "any", None
    if w.cmd == "live-check":
        fs = live_findings(w); on = w.eff["live-check.fail_on"]
        if f: return sorted(warn | f), 1
        bad = on != "none" and not w.on("live-check.no_stats") and any(RANK.index(l) >= RANK.index(on) for _, l in fs)
        logs = w.on("live-check.emit.otlp_logs") and not w.on("live-check.emit.otlp_logs_stdout") and fs
        return ("any", None) if logs else (sorted(warn), int(bad))
    return sorted(warn | f), int(bool(f))

def prepare(w, top, wd):
    """The files around a run, and its arguments."""
    files = []; named = []; case = w.c
    for at, pl, n in ((wd, case["places"][0], ".weaver.toml"), (wd.parent, case["places"][1], ".weaver.toml"), (top, case["places"][2], ".weaver.toml"), (top / "else", case["places"][3], w.rng.choice(["conf.toml", ".weaver.toml", "x"]))):
        if pl["st"] == "none": continue
        at.mkdir(exist_ok=True); p = at / n
        if pl["st"] == "dir": p.mkdir()
        else: p.write_text(w.toml(pl["set"]) if pl["st"] == "ok" else w.rng.choice(BROKEN)); files.append(str(p.relative_to(top)))
        if pl["named"]: named = [str(p)]
    if case["places"][3]["named"] and not named: named = [str(top / "else" / "gone.toml")]
    write_tree(wd, home(w.cmd)); cmd = ["serve"] if w.cmd == "serve" else ["registry", w.cmd.removesuffix("-otlp")]; o = w.opts()
    if w.cmd == "resolve": o += ["-f", "json", "-o", "r.json"]
    if w.cmd == "diff": o += ["--baseline-registry", f"{w.F}/base"]
    if w.cmd == "live-check-otlp": o += ["--input-source", "otlp"]
    front = w.rng.random() < .5; g = ["--config" if front or w.cmd != "generate" else "-C", named[0]] if named else []      # generate has a --config of its own
    pos = w.positional(); a = ["--quiet"] * (w.rng.random() < .7)
    bare = bool(o) and o[-1].startswith("--") and "=" not in o[-1]      # would take a positional argument for its value
    return g + a + cmd + pos + o if front else cmd + g + a + (pos + o if bare else o + pos)

def wrong_diagnostics(w, r, want):
    """want: the kinds of errors shown, None when nothing is shown."""
    dg = {"stdout": diagnostics(r.out), "stderr": diagnostics(r.err)}
    e = {"diagnostics.stdout": "false", "diagnostics.format": "ansi", "diagnostics.template": "d"} if w.c["refused"] else w.eff
    got = {k: [(t, f, sorted({"warning" if "Warning" in x else x for x in ks})) for t, f, ks, _ in v] for k, v in dg.items()}
    exp = {"stdout": [], "stderr": []} | ({"stdout" if e["diagnostics.stdout"] == "true" else "stderr": [(e["diagnostics.template"], e["diagnostics.format"], want)]} if want else {})
    return [f"diagnostics (template, format, kinds): expected {exp}, got {got}"] if got != exp else []

def attempt(S, F, i, case, tag, run):
    w = Case(case, F, f"{core.SEED}-{tag}-{i}"); top = S.dir(f"c{tag}{i}"); wd = top / "up" / "wd"; wd.mkdir(parents=True)
    try:
        args = prepare(w, top, wd); r, bad = run(w, wd, args)
        if r.crashed: bad.append(f"crash: {r.err[-400:]}")
        if bad: return dict(case=case, args=[x.replace(str(F), "F") for x in args], diff=[str(b).replace(str(F), "F")[:600] for b in bad], err=r.err[-1500:])
    finally: core.shutil.rmtree(top, ignore_errors=True)

def run_case(S, F, i, case, tag=""): return attempt(S, F, i, case, tag, RUN.get(case["cmd"], run_once))
def run_once(w, wd, args):
    case = w.c; k = {"emit": "endpoint", "live-check": "otlp_logs_endpoint"}.get(w.cmd)
    if k: lis = Listener({v: w.port(k, v) for v in "ab"})
    r = weaver(args, wd, env=dict(OTEL_EXPORTER_OTLP_ENDPOINT=f"http://127.0.0.1:{w.port('endpoint', case['env'])}") if case["env"] else {}, timeout=60)
    if k: w.hits = lis.end()
    bad = []
    if case["refused"]: want, rc, ok = ["config"], 1, False
    else: (want, rc), ok = outcome(w), error_of(w) is None
    if rc is not None and r.rc != rc: bad.append(f"exit code {r.rc}, expected {rc}")
    if want != "any":
        bad += wrong_diagnostics(w, r, want)
        fs = sorted(x for t in (r.out, r.err) for d in diagnostics(t) for x in d[3]); wf = findings(w) if ok and "finding" in (want or []) else []
        if fs != wf: bad.append(f"policy findings: expected {wf[:6]} ({len(wf)}), got {fs[:6]} ({len(fs)})")
    if not case["refused"]:
        cov = ok and "policy.skip" in w.eff and w.on("policy.display_policy_coverage") and not w.on("policy.skip") and w.eff["policy.paths"] != "none"
        if w.cmd in ("check",) and ("COVERAGE REPORT" in r.out) != bool(cov): bad.append(f"coverage report: expected {bool(cov)}")
        bad += [f"{k}: expected {a}, got {b}" for k, a, b in SEE[w.cmd](w, wd, r, ok) if a != b]
    return r, bad

# ---- commands that go on until they are stopped
def error_before(w): return "config" if w.c["refused"] else None if w.cmd == "infer" else error_of(w)
def ended_early(w, p):
    """The run has an error to report, and nothing else."""
    r = p.end(); bad = wrong_diagnostics(w, r, [error_before(w)])
    return r, bad + ([f"exit code {r.rc}, expected 1"] if r.rc != 1 else [])
def until(p, f, timeout=40):
    t = time.time()
    while time.time() - t < timeout:
        if f(): return True
        if p.gone(): return False
        time.sleep(.03)
    return False
def connects(host, port):
    try: socket.create_connection((host, port), timeout=5).close(); return True
    except OSError: return False
def run_listen(w, wd, args):
    p = served.Proc(args, wd); sec = "infer" if w.cmd == "infer" else "live-check.otlp"; bad = []
    try:
        if error_before(w): return ended_early(w, p)
        e = {k: w.eff[f"{sec}.{k}"] for k in ("grpc_address", "grpc_port", "admin_port", "inactivity_timeout")}
        admin = lambda v: served.get(w.port("admin_port", v), "/health")
        if not until(p, lambda: any((admin(v) or [0, 0, b""])[2] == b'{"status":"ready"}' for v in "ab")):
            p.kill(); return p.end(), ["not ready"]
        t0 = time.time()
        got = sorted((a, v) for a, h in (("a", "127.0.0.1"), ("b", "127.0.0.2")) for v in "ab" if connects(h, w.port("grpc_port", v))); want = sorted((a, e["grpc_port"]) for a in "ab" if e["grpc_address"] in ("any", a))
        if got != want: bad.append(f"addresses and ports of the receiver: expected {want}, got {got}")
        got = [v for v in "ab" if admin(v)]
        if got != [e["admin_port"]]: bad.append(f"admin port: expected {e['admin_port']}, got {got}")
        if w.cmd == "infer" and not bad:
            c = otlp.Conn(w.port("grpc_port", e["grpc_port"]), host="127.0.0.2" if e["grpc_address"] == "b" else "127.0.0.1"); t0 = time.time()
            if not c.export(dict(kind="metrics", groups=[dict(resource=None, scopes=[dict(scope=None, items=[dict(name="seen.metric", unit="1", instrument="gauge", points=[{}])])])])): bad.append("export not taken")
            c.close()
        quits = until(p, p.gone, 8 - (time.time() - t0) if e["inactivity_timeout"] == "b" else 30)
        if quits != (e["inactivity_timeout"] == "a"): bad.append(f"ends by itself: expected {not quits}, after {time.time() - t0:.1f} s")
        if not p.gone():
            c = http.client.HTTPConnection("127.0.0.1", w.port("admin_port", e["admin_port"]), timeout=20); c.request("POST", "/stop")
            try: c.getresponse().read()
            except (http.client.HTTPException, OSError): pass      # infer may be gone before the answer
            c.close()
        r = p.end()
        if w.cmd == "infer":
            bad += wrong_diagnostics(w, r, None)
            got = {d: names2(wd / d) for d in ("inferred-registry", "out_a", "out_b") if (wd / d).is_dir()}; o = w.eff["infer.output"]; want = {"inferred-registry" if o == "d" else "out_" + o: ["seen.metric"]}
            if got != want: bad.append(f"inferred registry: expected {want}, got {got}")
            if r.rc != 0: bad.append(f"exit code {r.rc}, expected 0")
        return r, bad
    except (OSError, http.client.HTTPException) as x: p.kill(); return p.end(), bad + [repr(x)]
    finally: p.kill()
def names2(d): return sorted({m for f in d.rglob("*") if f.is_file() for m in re.findall(r"seen\.metric", f.read_text())})
def run_serve(w, wd, args):
    p = served.Proc(args, wd); bad = []
    try:
        if error_before(w): return ended_early(w, p)
        if not until(p, lambda: any(served.get(w.port("bind", v), "/health") for v in "ab")): p.kill(); return p.end(), ["not ready"]
        got = [v for v in "ab" if served.get(w.port("bind", v), "/health")]; b = w.eff["serve.bind"]
        if got != [b]: p.kill(); return p.end(), [f"bound to {got}, expected {b}"]
        o = w.eff["serve.cors_origins"]
        for org in "abc":
            u = f"https://{org}.io"; h = served.get(w.port("bind", b), "/health", headers={"Origin": u})[1].get("access-control-allow-origin"); want = u if org in {"a": "a", "b": "bc", "": ""}[o] else None
            if h != want: bad.append(f"CORS for {u}: expected {want}, got {h}")
        ms = sorted(json.loads(served.get(w.port("bind", b), served.q("/api/v1/registry/filter", filter="[.registry.metrics[].name]"))[2]))
        if ms != metrics(w): bad.append(f"registry: expected {metrics(w)}, got {ms}")
        p.kill(); return core.Run(0, *(p.end().__dict__[k] for k in ("out", "err"))), bad
    finally: p.kill()
def run_mcp(w, wd, args):
    p = served.Mcp(args, wd); bad = []
    try:
        if error_before(w): p.p.stdin.close(); p.watch(1, p.p.stdout); return ended_early(w, p)
        p.hello(); e = w.eff; sep = e["mcp.namespace_separator"]
        ns = json.loads(p.tool("browse_namespace")[0])["sub_namespaces"]; want = ["x1.y1_z1-w1".split(sep)[0]]
        if ns != want: bad.append(f"namespaces: expected {want}, got {ns}")
        w.eff |= {f"live-check.{k}": e[f"mcp.{k}"] for k in ("advice_policies", "advice_data", "advice_preprocessor")} | {"live-check.input_format": "json", "live-check.finding_level_overrides": "", "live-check.finding_filters": ""}
        t = p.tool("live_check", samples=[dict(attribute=dict(name="Inx", value=1))])[0]
        try: got = sorted((a["id"], a["level"]) for a in json.loads(t)[0]["attribute"]["live_check_result"]["all_advice"])
        except (ValueError, KeyError, TypeError): got = t
        if got != live_findings(w): bad.append(f"findings: expected {live_findings(w)}, got {got}")
        ms = sorted(x["name"] for x in json.loads(p.tool("search", type="metric", limit=100)[0])["results"])
        if ms != metrics(w): bad.append(f"registry: expected {metrics(w)}, got {ms}")
        r = p.finish(); j = "".join(p.junk)
        if j.strip(): bad.append(f"not part of the protocol: {j[:300]}")
        if r.rc != 0: bad.append(f"exit code {r.rc}, expected 0")
        return r, bad + wrong_diagnostics(w, r, None)
    except (OSError, KeyError, ValueError, TypeError) as x: p.kill(); return p.end(), bad + [repr(x)]
    finally: p.kill()
RUN = {"infer": run_listen, "live-check-otlp": run_listen, "serve": run_serve, "mcp": run_mcp}

def check_C01(c):
    r = core.tlc("Config", "Config.mc.cfg", workers=8, timeout=3000, mem="8g"); c.model(r, "two settings, three directories and a named file, each with every set of mentions or none, or broken, in every order")
    k = 10 if c.thorough else 1; cases = []
    for dens, n in ((20, 600), (45, 900), (75, 500)):
        r = core.tlc_many("Config", "Config.gen.cfg", n * k, procs=8, seed=core.SEED + dens, consts={"Density": dens, "Only": '""'}, depth=6); c.generated(r, f"random, settings mentioned {dens}% of the time"); cases += r.cases
    with core.Scratch() as S:
        F = Fixtures(S); c.replay(cases, lambda i, x: run_case(S, F, i, x), "settings of commands")
    more = {}
    for o in ("live-check-otlp", "infer", "serve", "mcp"):
        r = core.tlc_many("Config", "Config.gen.cfg", (16 if "infer" in o or "otlp" in o else 60) * k, procs=4, seed=core.SEED + 7, consts={"Density": 60, "Only": f'"{o}"'}, depth=6); c.generated(r, f"{o}, settings mentioned 60% of the time"); more[o] = r.cases
    with core.Scratch() as S:
        F = Fixtures(S); c.replay(more["live-check-otlp"] + more["infer"], lambda i, x: run_case(S, F, i, x, "l"), "settings of commands that listen", n=16)
        c.replay(more["serve"] + more["mcp"], lambda i, x: run_case(S, F, i, x, "s"), "settings of commands that serve")
    cases += sum(more.values(), [])
    n = {}
    for x in cases: n[x["cmd"]] = n.get(x["cmd"], 0) + 1; n["refused"] = n.get("refused", 0) + x["refused"]
    c.extra["commands"] = n
