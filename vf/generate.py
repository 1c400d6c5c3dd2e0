"""G01: writes the configuration files and templates of spec/Generate.tla, runs `weaver registry generate`, and compares every file of the output directory."""
import json, random
from . import core
from .core import weaver

NAMES = {1: "a.j2", 2: "b.j2", 3: "sub/a.j2", 4: "sub/c.md.j2", 5: "deep/x/y.j2", 6: "sub/deep/b.j2"}
BASES = {"b1": "a", "b2": "b", "b3": "c.md", "b4": "y"}
GLOBS = dict(one=["a.j2"], anyA=["**/a.j2"], all=["**/*.j2", "*.j2"], sub=["sub/**", "sub/*"], alt=["{a,b}.j2"], cls=["[ab].j2", "?.j2"], y=["deep/x/y.j2", "**/y.j2", "deep/**/y.j2"],
             subOne=["sub/c.md.j2", "sub/c.*"], deep=["**/deep/**"], nothing=["nope/*.j2", "A.j2"])
PARAM = {1: "p1", 2: "out_dir", 3: "Third", 4: "x"}
TYPED = {"a": [1, True, 2.5, "x", None], "m": {"k": "v"}}
CASING = {1: "IOAPI", 2: "IoAPI", 3: "ioAPI", 4: "IoApi", 5: "iOaPi", 104: "IOapi"}
CASING2 = {1: "HTTP", 2: "Http", 3: "hTTP", 4: "HttP", 5: "httP", 104: "HTtp"}
ESC = {"": "<&>", "none": "<&>", "html": "&lt;&amp;&gt;", "json": '"<&>"'}
PROBE = ('@@{{ {"ctx": ctx, "params": params} | tojson }}@@ESC[{{ "<&>" }}]T[{{ "k" | map_text("m1") | safe }},{{ "k" | map_text("m2") | safe }},{{ "other" | map_text("m1", "dflt") | safe }}]'
         'A[{{ "ioapi x http" | acronym | safe }}]C[{{ "w" | comment | safe }}]W[A{% if true %}\nB{% endif %}\nC\n  {% if true %}D{% endif %}]X{# a #}Y/* b */Z#}V\n')

def src(s): return f"p{s}" if s > 0 else None
def path(p):
    if p in BASES: return BASES[p]
    d, _, n = p.partition("/")
    if d == "o": return f"o/file{n}.txt"
    if d == "q": return "q/0.txt" if n == "0" else f"q/p{n}.txt"
    return p + ".txt"
def atom(a): return a
def ctx_of(x):
    if x["t"] == "null": return None
    if x["t"] == "list": return list(x["v"])
    return x["v"][0]

class World:
    def __init__(s, case, key):
        s.c, s.rng = case, random.Random(key)
    def mentions(s, p, i):
        return {PARAM[x]: None if m == "null" else src(i) for x, m in enumerate(p, 1) if m != "-"}
    def entry(s, e):
        r = s.rng; d = {r.choice(["template", "template", "pattern"]): r.choice(GLOBS[e["pat"]]), "application_mode": e["mode"]}
        fk = e["fk"]; name = PARAM.get(fk, "p1")
        f = dict(dot=r.choice([None, "."]), list=f'[range({fk})] | map("e\\(. + 1)")', stream=f'range({fk}) | "e\\(. + 1)"', null="null", str='"s"', var=f"${name}", pvar=f"$params.{name}", bad="[.groups", fail='error("x")')[e["fil"]]
        if f is not None: d["filter"] = f
        wn = PARAM[e["wk"]]
        w = {"-": None, "true": "true", "false": "1 == 2", "set": f"$params.{wn} != null", "direct": f'${wn} == "{src(103)}"', "one": "1", "str": '"true"', "none": "empty", "two": "true, true", "bad": "| |"}[e["when"]]
        if w is not None: d["when"] = w
        short = "{{ ctx if ctx is string else 'n' }}"
        n = {"-": None, "c": f"o/file{e['nk']}.txt", "x": f"x/y/{short}.txt", "p": f"q/{{{{ params.{PARAM[e['nk']]} or 0 }}}}.txt", "bad": "a{{ ctx"}[e["nm"]]
        if e["nm"] == "x" and e["fil"] == "dot": n = "x/y/n.txt"
        if n is not None: d["file_name"] = n
        if e["esc"]: d["auto_escape"] = e["esc"]
        p = s.mentions(e["p"], 101)
        if p or r.random() < .2: d["params"] = p
        return d
    def layer(s, l, i):
        d = {}; p = s.mentions(l["p"], i)
        if i == 1: p["typed"] = TYPED
        if p: d["params"] = p
        if l["tmOn"]: d["text_maps"] = {f"m{w}": {"k": f"text{i}.{w}"} for w in l["tm"]}
        if l["acOn"]: d["acronyms"] = [(CASING if w == 1 else CASING2)[i] for w in l["ac"]]
        # the weakest file always has formats, as the filter fails without any
        if l["cf"] or i == 1: d["comment_formats"] = {n: {"format": "markdown", "prefix": f"P{i}{n} "} for n in ("default", "f1", "f2")}
        if l["df"]: d["default_comment_format"] = f"f{l['df']}"
        w = {n: l[k] == 2 for n, k in (("trim_blocks", "trim"), ("lstrip_blocks", "lstrip"), ("keep_trailing_newline", "keep")) if l[k]}
        if w: d["whitespace_control"] = w
        y = {}
        if l["cs"]: y["comment_start"] = "/*"
        if l["ce"]: y["comment_end"] = "*/"
        if y: d["template_syntax"] = y
        if l["tplOn"]: d["templates"] = [s.entry(e) for e in l["tpl"]]
        return d
    def template(s, f):
        t = ""
        if f["tn"] != "-":
            n = '"t/" ~ (ctx if ctx is string else "n") ~ ".txt"' if f["tn"] == "x" else '"t/const.txt"'
            t += "{% set _ = template.set_file_name(" + n + ") %}"
        if f["bad"] == "e2": t += '{% if ctx == "e2" %}{{ ctx.x.y }}{% endif %}'
        t += f"F{f['place']}" + PROBE
        if f["bad"] == "syntax": t += "{% if %}"
        return t
    def text(s, t):
        """The whole text a template renders, except for the JSON between the marks."""
        k = s.c["look"]; ws = lambda n: k[n] == 2
        m = lambda w: f"text{k['tm'][w - 1]}.{w}" if k["tm"][w - 1] else "k"
        a = [CASING.get(k["ac"][0], "ioapi"), CASING2.get(k["ac"][1], "http")]
        c = f"P{k['cf'] or 1}{('default', 'f1', 'f2')[k['df']]} w"
        d = {(0, 0): "XY/* b */Z#}V", (0, 1): "XZ#}V", (1, 0): "X{# a #}YV", (1, 1): "X{# a #}YZ#}V"}[(1 if k["cs"] else 0, 1 if k["ce"] else 0)]
        return (f"F{t['f']}", f"ESC[{ESC[t['esc']]}]T[{m(1)},{m(2)},dflt]A[{a[0]} x {a[1]}]C[{c}]W[A" + ("" if ws("trim") else "\n") + "B" + ("" if ws("trim") else "\n")
                + "C\n" + ("" if ws("lstrip") else "  ") + f"D]{d}" + ("\n" if ws("keep") else ""))
    def agrees(s, t, got, v2):
        head, tail = s.text(t); parts = got.split("@@")
        if len(parts) != 3: return f"unreadable: {got[:200]!r}"
        if (parts[0], parts[2]) != (head, tail): return f"text: expected {head + '..' + tail!r}, got {parts[0] + '..' + parts[2]!r}"
        o = json.loads(parts[1])
        want = {PARAM[x]: src(v) for x, v in enumerate(t["seen"], 1) if src(v)}; want["typed"] = TYPED
        have = {k: v for k, v in o["params"].items() if v is not None and k != "params"}
        inner = {k: v for k, v in (o["params"].get("params") or {}).items() if v is not None}
        if want != have or want != inner: return f"params: expected {want}, got {have} and {inner}"
        x = ctx_of(t["x"])
        if x == "reg":
            c = o["ctx"]
            if not isinstance(c, dict) or not (("registry" in c) if v2 else ("groups" in c and [g["id"] for g in c["groups"]] == ["metric.m1"])): return f"ctx is not the registry: {str(o['ctx'])[:200]}"
        elif o["ctx"] != x: return f"ctx: expected {x!r}, got {o['ctx']!r}"

REG1 = {"groups": [{"id": "metric.m1", "type": "metric", "metric_name": "m1", "instrument": "counter", "unit": "1", "brief": "b", "stability": "stable"}]}

def run_case(S, i, case, tag=""):
    w = World(case, f"{core.SEED}-{tag}-{i}"); r = w.rng; d = S.dir(f"g{tag}{i}")
    try:
        files = {"reg/m.yaml": REG1, "reg/manifest.yaml": {"schema_url": "https://x.io/r/1.0.0", "name": "r", "description": "d", "stability": "stable"}}
        root = r.choice(["templates", "templates/registry"]); target = r.choice(["t", "t/u", "t"]); base = f"{root}/{target}"
        opts = []; L = case["layers"]
        if r.random() < .35:
            names = [f"cfg/{r.choice('ab')}{k}.yaml" for k in range(len(L))]
            for k, n in enumerate(names): files[n] = w.layer(L[k], k + 1); opts += ["-c", n]
            files[base + "/weaver.yaml"] = {"params": {"decoy": "x", "p1": "decoy"}, "acronyms": ["ioAPI"], "templates": [{"template": "**/*.j2", "application_mode": "single", "file_name": "decoy"}]}
        else:
            places = ["home/.weaver", ".", "templates"] + (["templates/registry"] if root != "templates" else []) + (["templates/registry/t" if root != "templates" else "templates/t"] if "/" in target else []) + [base]
            for k, n in enumerate(sorted(r.sample(range(len(places)), len(L)))): files[f"{places[n]}/weaver.yaml"] = w.layer(L[k], k + 1)
        for f in case["files"]: files[f"{base}/{NAMES[f['place']]}"] = w.template(f)
        core.write_tree(d, files); (d / base).mkdir(parents=True, exist_ok=True)
        c = case["cli"]; toml = []
        if c["tomlAc"]: toml.append("acronyms = " + json.dumps([(CASING if x == 1 else CASING2)[104] for x in c["ac"]]))
        if c["tomlTm"]: toml += [f'[template.text_maps.m{x}]\nk = "text104.{x}"' for x in c["tm"]] or ["[template.text_maps]"]
        if toml: (d / ".weaver.toml").write_text("[template]\n" + "\n".join(toml) + "\n")
        if c["f"] or r.random() < .1: (d / "params.yaml").write_text(json.dumps({"params": {PARAM[x]: src(102) for x in c["f"]}})); opts += ["--params", "params.yaml"]
        for x in c["d"]: opts += [r.choice(["-D", "--param"]), f"{PARAM[x]}={src(103)}"]
        for x in c["n"]: opts += [r.choice(["-D", "--param"]), f"{PARAM[x]}=" + r.choice(["null", "~", ""])]
        v2 = r.random() < .4
        for p in case["pre"]: (d / "out" / path(p)).parent.mkdir(parents=True, exist_ok=True); (d / "out" / path(p)).write_text("before " * 400)
        args = ["registry", "generate", "-r", "reg", "-t", "templates", *opts, "--skip-policies", "--quiet"] + (["--v2"] if v2 else []) + [target, "out"]
        if r.random() < .25:
            # an earlier run, whose files have the same names and lengths, but another text
            for f in case["files"]: (d / base / NAMES[f["place"]]).write_text(w.template(f).replace("ESC[", "CSE["))
            weaver(args, d, env=dict(HOME=str(d / "home")))
            for f in case["files"]: (d / base / NAMES[f["place"]]).write_text(w.template(f))
        run = weaver(args, d, env=dict(HOME=str(d / "home"), RAYON_NUM_THREADS=r.choice(["1", "2", "8"])))
        bad = []
        if run.crashed: bad.append(f"crash: {run.err[-300:]}")
        if (run.rc != 0) != case["wrong"]: bad.append(f"exit code {run.rc}, expected {'failure' if case['wrong'] else 'success'}: {run.err[:600]}")
        want = {}
        for x in case["wanted"]: want.setdefault(path(x["path"]), []).append(x["text"])
        have = {str(f.relative_to(d / "out")): f.read_text() for f in (d / "out").rglob("*") if f.is_file()} if (d / "out").is_dir() else {}
        pre = {path(p) for p in case["pre"]}
        for p in sorted(set(have) | set(want) | pre):
            if p not in want:
                if p not in pre: bad.append(f"{p}: not wanted")
                elif p not in have or have[p] != "before " * 400: bad.append(f"{p}: changed although nothing names it")
            elif p not in have or (p in pre and have[p] == "before " * 400) or (case["wrong"] and "CSE[" in have[p]):
                if not case["wrong"]: bad.append(f"{p}: not written")
            elif len(want[p]) == 1:
                e = w.agrees(want[p][0], have[p], v2)
                if e: bad.append(f"{p}: {e}")
        if bad: return dict(case=case, args=args, diff=bad[:8])
    finally: core.shutil.rmtree(d, ignore_errors=True)

def run(c, mc, sizes, what):
    r = core.tlc("Generate", "Generate.mc.cfg", consts=mc, workers=8, timeout=3000, mem="12g"); c.model(r, "all pairs of entries and templates in any order, all merges of small layers")
    k = 10 if c.thorough else 1; cases = []
    for layers, params, entries, n in sizes:
        r = core.tlc_many("Generate", "Generate.gen.cfg", n * k, procs=8, seed=core.SEED + layers, consts={"MaxLayers": layers, "Params": params, "MaxEntries": entries}, depth=20)
        c.generated(r, f"random, {layers} layers, {params} parameters, {entries} entries"); cases += r.cases
    with core.Scratch() as S: c.replay(cases, lambda i, x: run_case(S, i, x), what)
    c.extra["outcomes"] = dict(unmatched=sum(x["unmatched"] for x in cases), wrong=sum(x["wrong"] for x in cases), files=sum(len(x["wanted"]) for x in cases))
def check_G01(c): run(c, {"MaxLayers": 2, "MaxEntries": 3 if c.thorough else 2}, ((1, 2, 2, 800), (2, 3, 4, 800), (1, 4, 6, 400)), "registry generate")
def check_G02(c): run(c, {"MaxLayers": 3 if c.thorough else 2, "MaxEntries": 1}, ((3, 3, 2, 800), (4, 4, 1, 1000), (2, 2, 2, 300)), "registry generate with several configuration files")
