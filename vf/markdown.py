"""M01: replays the histories of spec/Markdown.tla (edits, updates, dry runs) into `weaver registry update-markdown`."""
import random
from . import core
from .core import weaver, write_tree

TEXTS = ["", "plain text", "# Heading", "| a | b |", "  <!-- semconv d.one -->", "<!-- semconv -->", "<!-- semconv d.one extra -->", "<!-- semconv d.one(nope) -->",
  "<!-- semconv d.one", "x <!-- endsemconv -->", "<!-- endsemconv x -->", "<!-- semconv d.one --> trailing", "<!-- SEMCONV d.one -->", "<!--endsemconv", "```yaml",
  "\ttabs\tand trailing spaces  ", "ünïcödé → ✓", "<!-- other comment -->", "<!-- an endsemconv comment -->", "<!-- semconv d.one (full) -->", "<!-- a weaver . -->",
  "<!- endsemconv -->", "<-- semconv d.one -->", "<!-- endsemconvs -->", " <!-- endweaver -->"]
ARGS = ["", "(full)", "(tag=t-1,metric_table)", "(omit_requirement_level,tag=x_y,tag=z)"]
TAGS = ["", "", "t-1", "x_y"]
V1 = ["d.one", "metric.m.two", "span.s-three", "event.e_four", "entity.n.five", "registry.long.group-id.six", "m7"]
V2 = ["registry.attributes.d.one", "registry.attribute_groups.g.two", "registry.spans.s.three", "registry.metrics.m.four", "registry.events.e.five", "registry.entities.n.six", "refinements.metrics.r.seven"]
LOST = {False: ["no.such", "d", "M7", "d.one.x"], True: ["registry.spans.m.four", "registry.metrics.none", "nonsense", "registry.nope.d.one", "refinements.spans.r.seven", "foo.metrics.m.four"]}
TEMPLATE = """{%- if group is defined -%}
S|{{ group.brief }}|{{ tag_filter | join(",") }}|{{ attribute_registry_base_url or "" }}|{{ snippet_type or "" }}
{%- else -%}
W|{{ ls | join(",") }}
{%- endif -%}"""
OTHER = "O|{% for x in ls %}\n{{ x }}\n{% endfor %}|end"

def brief(i, v): return {1: f"def {i} first", 2: f"def {i} second\nline | two", 3: f"def {i} <!-- endsemconv --> third <!-- semconv d.one -->"}[v]

def registry(v2, g):
    on = lambda i: g[i - 1] != 0
    b = lambda i: brief(i, g[i - 1])
    if not v2:
        at = [dict(ref="k.base")]
        f = [dict(id="base", type="attribute_group", brief="b", stability="stable", attributes=[dict(id="k.base", type="string", brief="b", stability="stable", examples=["e"])])]
        kinds = [dict(type="attribute_group"), dict(type="metric", metric_name="m.two", instrument="counter", unit="1", stability="stable"), dict(type="span", span_kind="client", stability="stable"),
                 dict(type="event", name="e.four", stability="stable"), dict(type="entity", name="n.five", stability="stable"), dict(type="attribute_group"), dict(type="metric", metric_name="m.seven", instrument="gauge", unit="s", stability="stable")]
        for i, k in enumerate(kinds, 1):
            if on(i): f.append(dict(id=V1[i - 1], brief=b(i), attributes=[dict(ref="k.base", role="identifying")] if k["type"] == "entity" else at, **k))
        return dict(groups=f)
    at = [dict(ref="k.base")]; st = dict(stability="stable")
    m = lambda n, br: dict(name=n, brief=br, instrument="counter", unit="1", attributes=at, **st)
    f = dict(file_format="definition/2", attributes=[dict(key="k.base", type="string", brief="b", examples=["e"], **st)] + ([dict(key="d.one", type="int", brief=b(1), examples=[1], **st)] if on(1) else []),
      metrics=[m("m.fixed", "fixed")] + ([m("m.four", b(4))] if on(4) else []))
    if on(2): f["attribute_groups"] = [dict(id="g.two", visibility="public", brief=b(2), attributes=at, **st)]
    if on(3): f["spans"] = [dict(type="s.three", kind="client", name=dict(note="n"), brief=b(3), attributes=at, **st)]
    if on(5): f["events"] = [dict(name="e.five", brief=b(5), attributes=at, **st)]
    if on(6): f["entities"] = [dict(type="n.six", brief=b(6), identity=at, **st)]
    if on(7): f["metric_refinements"] = [dict(id="r.seven", ref="m.fixed", brief=b(7))]
    return f

QUERIES = ["", '{ls: [.registry.metrics[] | .name + "@" + .brief] | sort}', "{ls: [.registry.attributes[].key, .registry.spans[].type] | sort}"]
def query(q, g):
    if q == 1: return sorted(["m.fixed@fixed"] + (["m.four@" + brief(4, g[0])] if g[0] else []))
    return sorted(["k.base"] + (["d.one"] if g[0] else []) + (["s.three"] if g[1] else []))

class World:
    def __init__(s, case, key):
        s.case, s.v2 = case, case["v2"]; rng = s.rng = random.Random(key)
        s.salt = rng.randrange(1 << 30); s.url = rng.choice([None, "https://x.io/reg", "/a/b"])
        s.names = []
        for n, f in enumerate(case["log"][0]["files"]):
            base = rng.choice(["", "sub/", "sub/deep er/", "sub.md/"]) + rng.choice([f"f{n}", f"read me{n}", f".hid{n}"])
            s.names.append(base + (rng.choice([".txt", ".markdown", ".MD", ".md.bak", ""]) if f["t"] == "other" else ".md"))
    def pick(s, x, *key): return random.Random(f"{s.salt}{key}").choice(x)
    def line(s, l):
        k, a, b = l["k"], l["a"], l["b"]; sp = lambda w: s.pick(["", " ", "  ", "\t"], w, k, a, b)
        if k == "text": return TEXTS[a]
        if k == "endsem": return s.pick(["<!-- endsemconv -->", "<!--endsemconv-->", "<!-- endsemconv -->  "], "es")
        if k == "endwea": return s.pick(["<!-- endweaver -->", "<!--endweaver  -->", "<!-- endweaver -->\t"], "ew")
        if k == "sem":
            i = s.pick(LOST[s.v2], "lost", b) if a == 0 else (V2 if s.v2 else V1)[a - 1]
            return f"<!--{sp(1)}semconv {sp(2)}{i}{ARGS[b]}{sp(3)}-->{s.pick(['', ' '], 4, a, b)}"
        if k == "wea":
            q = s.pick([".[[", ".registry | error", "@nope"], "bad") if a == 0 else QUERIES[a]
            t = ["template:none.j2 ", "", "template:other-1.j2 "][b]
            return f"<!--{sp(1)}weaver {sp(2)}{t}{q}{sp(3)}-->"
        if k == "gen":
            if l["of"] == "sem":
                ty = "" if s.v2 else "metric_table" if b == 2 else "attribute_table"
                return f"S|{brief(a, l['c'][0])}|{TAGS[b]}|{s.url or ''}|{ty}"
            ls = query(a, l["c"])
            return "W|" + ",".join(ls) if b == 1 else "O|" + "".join(f"\n{x}\n" for x in ls) + "|end"
    def content(s, f):
        lines = [s.line(l) for l in f["lines"]]
        # a last empty line that is not ended would not be there
        txt = "\n".join(lines) + ("\n" if f["fin"] and lines else "")
        out = txt.replace("\n", "\r\n") if f["crlf"] else txt
        return b"\xff\xfe" + out.encode() if f["t"] == "bin" else out.encode()

def unsound(w, case):
    """An unended last line that is empty cannot be written down."""
    return any(f["lines"] and not f["fin"] and w.line(f["lines"][-1]).split("\n")[-1] == "" for e in case["log"] for f in e["files"])

def run_case(S, i, case, tag=""):
    w = World(case, f"{core.SEED}-{tag}-{i}"); rng = w.rng
    if unsound(w, case): return None
    d = S.dir(f"{tag}{i}")
    try:
        tdir = rng.choice(["templates/registry/md", "templates/md"])
        write_tree(d, {f"{tdir}/snippet.md.j2": TEMPLATE, f"{tdir}/other-1.j2": OTHER, f"{tdir}/weaver.yaml": "templates: []\n"})
        (d / "docs").mkdir(); hist = []
        for e in case["log"]:
            if e["op"] in ("start", "reg"): write_tree(d, {"reg/r.yaml": registry(w.v2, e["reg"]), "reg/manifest.yaml": dict(schema_url="https://x.io/r/1.0.0", description="d")})
            want = {n: w.content(f) for n, f in zip(w.names, e["files"])}
            hist.append(dict(op=e["op"], n=e["n"]))
            if e["op"] in ("start", "edit"):
                for n, t in want.items(): (d / "docs" / n).parent.mkdir(parents=True, exist_ok=True); (d / "docs" / n).write_bytes(t)
                continue
            if e["op"] == "reg": continue
            dry = e["op"] == "dry"; how = rng.randrange(3)
            args = ["registry", "update-markdown", "-r", "reg", "-t", "templates", "--target", "md"] + (["--v2"] if w.v2 else []) + ([f"--attribute-registry-base-url={w.url}"] if w.url else [])
            cfg = "[update-markdown]\n"
            if how == 0: args += ["--dry-run"] if dry else []
            elif how == 1: args += [f"--dry-run={str(dry).lower()}"]; cfg += f"dry_run = {str(not dry).lower()}\n"
            else: cfg += f"dry_run = {str(dry).lower()}\n"
            if rng.random() < .5: cfg += 'markdown_dir = "docs"\n'
            else: args += ["docs"]
            (d / ".weaver.toml").write_text(cfg)
            r = weaver(args, d); hist[-1]["args"] = args
            if r.crashed: return dict(case=case, diff=["crash: " + r.err[-500:]], history=hist)
            got = {str(p.relative_to(d / "docs")): p.read_bytes() for p in (d / "docs").rglob("*") if p.is_file()}
            bad = core.diff("files", want, got)
            if (r.rc == 0) != e["ok"]: bad.append(f"exit code {r.rc}, expected {'0' if e['ok'] else 'a failure'}: {(r.out + r.err)[-400:]}")
            if bad: return dict(case=case, diff=[f"step {len(hist)} ({e['op']}): {x}" for x in bad], history=hist, config=cfg, registry=registry(w.v2, e["reg"]))
    finally: core.shutil.rmtree(d, ignore_errors=True)

def check_M01(c):
    r = core.tlc("Markdown", "Markdown.mc.cfg", consts={"MaxLen": 6 if c.thorough else 5}, workers=8, timeout=1800); c.model(r, f"all files of up to {6 if c.thorough else 5} lines")
    k = 10 if c.thorough else 1; cases = []
    for ids, files, ln, steps, n in ((7, 3, 9, 7, 400), (7, 1, 5, 5, 400), (7, 2, 25, 12, 120)):
        r = core.tlc_many("Markdown", "Markdown.gen.cfg", n * k, procs=8, seed=core.SEED + ln, consts={"Ids": ids, "Texts": len(TEXTS) - 1, "Files": files, "MaxLen": ln, "Steps": steps}, depth=400)
        c.generated(r, f"random, {files} files, up to {ln} lines, {steps} steps"); cases += r.cases
    with core.Scratch() as S: c.replay(cases, lambda i, x: run_case(S, i, x), "histories of edits, updates and dry runs")
    c.extra["commands"] = {o: sum(e["op"] == o for x in cases for e in x["log"]) for o in ("update", "dry", "reg", "edit")}
    c.extra["failing_commands"] = sum(not e["ok"] for x in cases for e in x["log"])
