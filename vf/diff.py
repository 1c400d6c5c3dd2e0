"""S01: replays behaviours of spec/Diff.tla (histories of a registry) into `weaver registry diff`."""
import json, random, re
from collections import Counter
from . import core
from .core import weaver, write_tree

KEYS = {"attribute": "registry_attributes", "metric": "metrics", "event": "events", "span": "spans", "entity": "entities", "attribute_group": "attribute_groups"}
NOTES = {"n1": "First note.", "n2": "See <b> & \"other\" - (or [that])"}
def nm(n): return "n." + n
def note(i):
    if i["note"] in NOTES: return NOTES[i["note"]]
    return f"Replaced by `{nm(i['to'])}`." if i["k"] == "renamed" else i["k"].capitalize() + "."
def deprecated(i, v2):
    if i["k"] == "unspecified" and not v2: return note(i)
    d = {"reason": i["k"]}
    if i["k"] == "renamed": d["renamed_to"] = nm(i["to"])
    # version 2 files must have the note, except for renames
    if i["note"] != "default" or (v2 and i["k"] != "renamed"): d["note"] = note(i)
    return d

SECT = {"metric": "metrics", "event": "events", "span": "spans", "entity": "entities", "attribute_group": "attribute_groups"}
def render(version, form, rng, stamp):
    """One version of the registry, in version 1 or version 2 files, with irrelevant differences between versions."""
    files = {}; v2 = form == "v2"
    def file(): return files.setdefault(f"{rng.choice('abc')}.yaml", {"file_format": "definition/2"} if v2 else {"groups": []})
    com = lambda: dict(brief=f"b {rng.randint(0, 99)}", stability=rng.choice(["stable", "development"]))
    present = lambda kind: [(n, i) for n, i in version.get(kind, {}).items() if i["k"] != "absent"]
    base = {"key" if v2 else "id": "k.id", "type": "string", "examples": ["x"], **com()}
    attrs = [base]
    for n, i in present("attribute"):
        a = {"key" if v2 else "id": nm(n), "type": rng.choice(["string", "int"]), "examples": None, **com()}
        a["examples"] = ["x"] if a["type"] == "string" else [1]
        if i["k"] != "live": a["deprecated"] = deprecated(i, v2)
        attrs.append(a)
    rng.shuffle(attrs)
    names = [nm(n) for n, _ in present("attribute")]
    if v2:
        for a in attrs: file().setdefault("attributes", []).append(a)
    else:
        # definitions in attribute groups or in the signals that use them
        cut = rng.randint(0, len(attrs)); gs = [attrs[:cut], attrs[cut:]]
        for k, g in enumerate(gs):
            if g: file()["groups"].append(dict(id=f"g{stamp}.{k}", type="attribute_group", brief="b", stability="stable", attributes=g))
    for kind in ("metric", "event", "span", "entity", "attribute_group"):
        if kind == "attribute_group" and not v2: continue
        for n, i in present(kind):
            g = com()
            if i["k"] != "live": g["deprecated"] = deprecated(i, v2)
            refs = [{"ref": a} for a in names if rng.random() < 0.4]
            for r in refs:
                if rng.random() < 0.3: r["brief"] = "other"
                # a reference says something else about the deprecation: it is no definition
                if not v2 and rng.random() < 0.4: r["deprecated"] = rng.choice([{"reason": "obsoleted", "note": "by ref"}, "by ref", {"reason": "renamed", "renamed_to": "n.q"}])
            if v2:
                g["type" if kind in ("span", "entity") else "id" if kind == "attribute_group" else "name"] = nm(n)
                if kind == "attribute_group": g.update(visibility="public")
                if kind == "entity": g.update(identity=[{"ref": "k.id"}], description=refs)
                else: g["attributes"] = refs
                if kind == "span": g.update(kind="client", name={"note": "n"})
                if kind == "metric": g.update(instrument="counter", unit="1")
                file().setdefault(SECT[kind], []).append(g)
                if kind in ("metric", "event", "span", "entity") and rng.random() < 0.3:
                    # a refinement, with a deprecation of its own: it is no definition
                    x = dict(id=rng.choice("az") + f".ref.{kind}.{n}", ref=nm(n), brief="refined")
                    if rng.random() < 0.6: x["deprecated"] = {"reason": "obsoleted", "note": "refinement"}
                    file().setdefault(kind + "_refinements", []).append(x)
            else:
                g.update(id=f"{kind}.{nm(n)}", type=kind, attributes=refs)
                if kind == "metric": g.update(metric_name=nm(n), instrument="counter", unit="1")
                else: g["name"] = nm(n)
                if kind == "span": g["span_kind"] = "client"
                if kind == "entity": g["attributes"] = refs + [{"ref": "k.id", "role": "identifying"}]
                file()["groups"].append(g)
    return files

def expected(entries, v1):
    out = []
    for e in entries:
        if v1 and e["kind"] == "attribute_group": continue
        if e["change"] in ("added", "removed"): out.append((KEYS[e["kind"]], e["change"], nm(e["name"]), "", ""))
        else:
            k = dict(k=e["change"], to=e["to"], note=e["note"])
            out.append((KEYS[e["kind"]], e["change"], nm(e["name"]), nm(e["to"]) if e["change"] == "renamed" else "", note(k)))
    return sorted(out)

def from_json(txt):
    got = json.loads(txt); out = []
    for sec, items in got["changes"].items():
        sec = "entities" if sec == "resources" else sec
        for c in items:
            c = dict(c); t = c.pop("type"); name = c.pop("old_name", None) or c.pop("name", None)
            out.append((sec, t, name, c.pop("new_name", ""), c.pop("note", "")))
            if c: out.append((sec, "unknown fields", str(c), "", ""))
    return sorted(out), (got["baseline"].get("semconv_version"), got["head"].get("semconv_version"))

TITLES = {"Registry Attributes": "registry_attributes", "Metrics": "metrics", "Events": "events", "Spans": "spans", "Entities": "entities", "Resources": "entities", "Attribute Groups": "attribute_groups"}
def item_line(s, change):
    m = re.fullmatch(r"- (?:Add |Rename )?(\S+)(?: (?:-->|to) (\S+))?(?: \(Note: (.*)\))?", s)
    return (m[1], m[2] or "", m[3] or "") if m else ("unparsable " + s, "", "")
def from_text(txt):
    """markdown and ansi reports"""
    txt = re.sub(r"\x1b\[[0-9;]*m", "", txt); out = []; sec = change = None
    for l in txt.splitlines():
        s = l.strip()
        m = re.fullmatch(r"(?:## |List of Changes to )(.*)", s)
        if m: sec, change = TITLES.get(m[1], m[1] if m[1] != "Registry versions" else None), None; continue
        m = re.match(r"(?:### )?(Added|Renamed|Obsoleted|Uncategorized|Removed)\b", s)
        if m and sec: change = m[1].lower(); continue
        if s.startswith("- ") and sec and change: out.append((sec, change, *item_line(s, change)))
    return sorted(out)
def from_stats(txt):
    txt = re.sub(r"\x1b\[[0-9;]*m", "", txt); out = Counter(); sec = None
    for l in txt.splitlines():
        m = re.fullmatch(r"\s*(.*) Changes\s*", l)
        if m: sec = TITLES.get(m[1]); continue
        m = re.fullmatch(r"\s*(Added|Renamed|Obsoleted|Uncategorized|Removed)\s*: (\d+)\s*", l)
        if m and sec: out[(sec, m[1].lower())] += int(m[2])
    return sorted((s, c, n) for (s, c), n in out.items() if n)

def check_S01(c):
    r = core.tlc("Diff", "Diff.mc.cfg", consts={"Kinds": '{"attribute"}', "Names": '{"x"}', "Versions": 3, "Edits": 1}, workers=8); c.model(r, "1 item, 3 versions")
    r = core.tlc("Diff", "Diff.mc.cfg", consts={"Kinds": '{"attribute", "metric"}' if c.thorough else '{"attribute"}', "Names": '{"x", "y"}', "Versions": 2, "Edits": 2}, workers=8, timeout=1500); c.model(r, "2 versions, 2 edits each, all visiting orders")
    kinds = '{"attribute", "metric", "event", "span", "entity", "attribute_group"}'
    r = core.tlc_many("Diff", "Diff.gen.cfg", 250 * (10 if c.thorough else 1), procs=4, seed=core.SEED, consts={"Kinds": kinds, "Names": '{"x", "y", "z", "w"}', "Versions": 3, "Edits": 26}, depth=300); c.generated(r, "random histories, 24 items, 3 versions"); cases = r.cases
    r = core.tlc_many("Diff", "Diff.gen.cfg", 100 * (10 if c.thorough else 1), procs=4, seed=core.SEED + 3, consts={"Kinds": kinds, "Names": '{"x", "y"}', "Versions": 4, "Edits": 9}, depth=300); c.generated(r, "random histories, 12 items, 4 versions"); cases += r.cases
    pairs = [0]
    with core.Scratch() as S:
        def one(i, case):
            rng = random.Random(f"{core.SEED}-{i}"); d = S.dir(f"c{i}"); v2 = rng.random() < 0.55; n = len(case["hist"])
            try:
                where = []; forms = []
                for v, version in enumerate(case["hist"]):
                    form = rng.choice(["v1", "v2"]); forms.append(form)
                    write_tree(d / f"r{v}", {**render(version, form, rng, v), "manifest.yaml": {"schema_url": f"https://a.b/c/1.{v}.0", "description": "d"}}); src = f"r{v}"
                    if v2 and rng.random() < 0.4:
                        r = weaver(["registry", "package", "-r", src, "--v2", "--resolved-registry-uri", "resolved.yaml", "-o", f"p{v}", "--quiet", "--skip-policies"], d)
                        if r.rc == 0: src = f"p{v}"
                        else: return dict(case=case, diff=["package failed: " + r.err[-600:]])
                    where.append(src)
                ps = [(b, h) for b in range(n) for h in range(n)]; rng.shuffle(ps)
                ps = ps[:4] + [(0, n - 1)] + [(v, v) for v in range(n) if where[v].startswith("p")]
                for b, h in ps:
                    pairs[0] += 1; base, head = where[b], where[h]
                    if b == h: base, head = rng.choice([(f"r{b}", where[b]), (where[b], f"r{b}"), (where[b], where[b])])
                    exp = expected(case["diffs"][b][h], not v2); fmt = rng.choice(["json", "json", "markdown", "ansi", "ansi-stats"])
                    mixed = v2 and "v1" in (forms[b], forms[h])
                    to_file = rng.random() < 0.3
                    args = ["registry", "diff", "-r", head, "--baseline-registry", base, "--quiet", "--diff-format", fmt] + (["--v2"] if v2 else []) + (["-o", "out"] if to_file else [])
                    r = weaver(args, d); ctx = dict(case=case, args=args, forms=forms)
                    if r.rc != 0: return dict(diff=["failed: " + (r.err or r.out)[-800:]], **ctx)
                    txt = r.out
                    if to_file: txt = next((d / "out").iterdir()).read_text(); core.shutil.rmtree(d / "out")
                    drop = {"attribute_groups"} if mixed or fmt != "json" else set()
                    if fmt == "json":
                        got, ver = from_json(txt)
                        if ver != (f"1.{b}.0", f"1.{h}.0"): return dict(diff=[f"versions: expected {(b, h)}, got {ver}"], **ctx)
                    elif fmt == "ansi-stats": got = from_stats(txt)
                    else:
                        got = from_text(txt)
                        m = re.search(r"Baseline: (\S+)\s+Head: (\S+)", txt)
                        if fmt == "markdown" and (not m or m.groups() != (f"1.{b}.0", f"1.{h}.0")): return dict(diff=[f"versions: expected {(b, h)}"], **ctx)
                    exp = [e for e in exp if e[0] not in drop]; got = [e for e in got if e[0] not in drop]
                    if fmt == "ansi-stats": exp = sorted((s, k, x) for (s, k), x in Counter((e[0], e[1]) for e in exp).items())
                    if got != exp: return dict(diff=[f"listed but not a change: {list((Counter(got) - Counter(exp)).elements())[:8]}", f"a change but not listed: {list((Counter(exp) - Counter(got)).elements())[:8]}"], **ctx)
            finally: core.shutil.rmtree(d, ignore_errors=True)
        c.replay(cases, one, "diff between the versions of a history")
    c.extra["pairs_compared"] = pairs[0]
