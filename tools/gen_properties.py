#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because JSON lines are awkward to edit)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
      why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

R="crates/weaver_resolver/src/"
prop("R01","Resolved attributes follow the ref/extends/include override order",
 "In a resolved registry every group carries exactly the attributes it declares, references, includes or inherits, and each attribute's type comes from its definition. Every other field has the value set nearest to the group: its own reference first, then the attribute groups it includes (two of which must not share an attribute), then the extended parent, recursively, and finally the definition. A reference in one group never takes values that another group set in its own override.",
 ["inputs"],"all registries of groups linked by refs, extends and included groups, with any subset of the overridable fields set at each level",
 "The unit tests resolve a few dozen fixed registries; the combinations of chain shape, overridden field subset and definition place are unbounded and most never appear in a fixture.",
 [R+"registry.rs",R+"attribute.rs","crates/weaver_resolved_schema/src/lineage.rs"],
 [("field by field merge of a ref over its parent",R+"registry.rs: resolve_inheritance_attr"),("merge of parent, included groups and own attributes",R+"registry.rs: resolve_inheritance_attrs_unified"),("definition lookup and overlay",R+"attribute.rs: AttributeCatalog::resolve")],
 [("root_attributes","one definition per attribute name, the target of refs",R+"attribute.rs")],
 ["resolved schema returned by the resolver / `weaver registry resolve`"])
prop("R02","Every unresolvable or circular reference fails resolution and is named",
 "Resolution succeeds only if every attribute reference, extended group and included group can be found and no chain of extensions or inclusions is circular. Otherwise it fails, and the failure names exactly the groups and references that could not be resolved. A resolved registry never contains a reference to something outside of itself.",
 ["inputs"],"all registries, with missing targets, cycles and arbitrarily ordered forward references",
 "Tests contain one unresolved extends and one unresolved ref; cycles, long forward chains and mixed failures are never combined.",
 [R+"registry.rs",R+"attribute.rs"],
 [("fixpoint over extends/includes with stuck detection",R+"registry.rs: resolve_extends_references"),("fixpoint over refs with stuck detection",R+"registry.rs: resolve_attribute_references")],
 observe=["result and errors of resolution"])
prop("R03","Resolution does not depend on file layout, load order or scheduling",
 "Resolving the same set of definitions always gives the same resolved registry (apart from recorded file paths), however the definitions are split over files, named, ordered within files, and whatever order or number of threads load them. Groups and attributes come out in one canonical order.",
 ["schedules","inputs"],"all partitions of a registry's groups into files, all load orders and thread counts",
 "Tests resolve each fixture once, in the order the scheduler happened to choose, against a golden file.",
 [R+"loader.rs",R+"registry.rs",R+"attribute.rs"],
 [("parallel loading of files",R+"loader.rs: load_from_semconv_repository (par_bridge)"),("first/last wins choice between definitions",R+"attribute.rs: resolve_conflict"),("canonical sort",R+"registry.rs: cleanup_and_stabilize_catalog_and_registry")],
 observe=["serialized resolved schema"])
prop("R04","Duplicate identifiers in a registry are always reported, and only those",
 "If two definitions in a registry have the same group id, metric name, event/signal name, root attribute id across attribute groups, or map to the same identifier in the version 2 output, resolution reports a diagnostic (an error or a warning) naming the duplicated identifier and the groups or files that declare it. When all of these are distinct, no such diagnostic is reported.",
 ["inputs"],"all registries and all ways two or more definitions can collide, within one file or across files",
 "Fixtures contain one instance per kind of duplicate.",
 [R+"registry.rs"],[("duplicate detection",R+"registry.rs: check_uniqueness, check_root_attribute_id_duplicates, check_v2_signal_id_collisions")],
 observe=["non fatal errors of resolution"])
prop("R05","Version 2 conversion keeps every signal and attribute of the registry",
 "Converting a resolved registry to the version 2 form keeps every metric, span, event, entity, public attribute group and attribute definition exactly once, with the same attributes, requirement levels, texts, stability and deprecation; refinements of metrics, spans and entities stay attached to the signal they refine. Every attribute index in the result points at an attribute of the same name, and nothing is invented.",
 ["inputs"],"all resolved registries over all signal kinds, attribute override combinations and refinements",
 "Golden files cover a handful of registries; the interplay of catalog dedup, overridden attributes and definition detection is only sampled.",
 ["crates/weaver_resolved_schema/src/v2/mod.rs","crates/weaver_resolved_schema/src/v2/catalog.rs"],
 [("conversion","crates/weaver_resolved_schema/src/v2/mod.rs: convert_v1_to_v2")],
 observe=["version 2 resolved schema"])
prop("R06","Malformed definitions are reported, well-formed ones are not",
 "Every definition that breaks an authoring rule (missing stability, span kind, event name, metric name/instrument/unit, enum members, examples that do not fit the attribute type, repeated references, misplaced fields, unstructured deprecation, missing texts) is reported with the offending group or attribute and the severity of that rule. A definition that respects the rules yields no report.",
 ["inputs"],"all groups and attributes over all combinations of present/absent/ill-typed fields",
 "Each rule has one or two positive tests; combinations with group type, deprecation and attribute type are not covered.",
 ["crates/weaver_semconv/src/group.rs","crates/weaver_semconv/src/attribute.rs","crates/weaver_semconv/src/semconv.rs"],
 [("validation","crates/weaver_semconv/src/group.rs: validate")],
 observe=["non fatal errors when loading a registry"])
prop("D01","One version per dependency, newest of the same major, across the whole graph",
 "For every dependency graph of registries, each registry name is used in a single version everywhere: the highest requested version of that major. Requests for different majors of one registry, circular dependencies and chains deeper than the limit are rejected with an error saying so, and a version raised over what the main manifest asked for is reported as a warning.",
 ["inputs","configurations"],"all dependency graphs (chains, diamonds, cycles) and version assignments within the depth limit and beyond",
 "Tests use a few two or three node graphs with hand-picked versions.",
 [R+"loader.rs",R+"conflict_strategy.rs",R+"lib.rs"],
 [("graph-wide version choice",R+"loader.rs"),("same major, latest wins",R+"conflict_strategy.rs: UseLatestMajorVersion")],
 observe=["resolved schema's dependencies and provenance, errors and warnings"])
prop("D02","Definitions excluded from dependency resolution or private never leak",
 "A definition marked as excluded from dependency resolution, or a group that is not public, can never be referenced, extended, included or imported by another registry: an explicit use, be it by name or by a pattern that matches it, is an error naming the item, and including everything unreferenced skips it. Within its own registry only definitions that are themselves excluded may use it. Items that are neither excluded nor private remain usable.",
 ["inputs","configurations"],"all combinations of marked items and of kinds of use (ref, extend, import by name or pattern) across registries",
 "Tests check single combinations, one item kind at a time.",
 [R+"dependency_resolution.rs",R+"imports.rs",R+"registry.rs",R+"attribute.rs"],
 [("exclusion check",R+"dependency_resolution.rs: is_excluded")],
 observe=["errors and contents of the resolved schema"])
prop("D03","Imports bring in exactly the matching signals, once",
 "A registry that imports signals from its dependencies contains, besides its own definitions, exactly the dependency signals whose name matches an import pattern of the same kind, each once even when several dependencies lead to it. A pattern that matches nothing is reported; signals that are not imported do not appear.",
 ["inputs","configurations"],"all sets of dependency signals, import patterns and dependency shapes",
 "Tests have a handful of import lists; pattern/kind/diamond combinations are not covered.",
 [R+"imports.rs",R+"registry.rs"],[("import matching and dedup",R+"imports.rs"),("unmatched import report",R+"registry.rs: resolve_dependency_imports")],
 observe=["groups of the resolved schema, unmatched import errors"])
prop("D04","Schema lookups give the same answer whatever was resolved before",
 "Asking for a registry by schema URL gives the same resolved content no matter which registries were resolved before, in what order, or whether cached entries were evicted in between; a location override decides where it is read from, and content whose declared URL differs from the requested one is rejected every time.",
 ["histories"],"all sequences of lookups, overrides and evictions for any cache capacity",
 "Tests make one or two lookups with the default capacity.",
 [R+"lib.rs"],[("LRU cache and override map",R+"lib.rs: WeaverResolver::resolve_schema")],
 [("cache","resolved schemas by URL",R+"lib.rs")],["return value of each lookup"])
prop("S01","Schema diff reports each change once, in its proper category",
 "The diff of two registry versions lists, for each attribute, metric, event, span and entity, exactly: added if only the new version has it, removed if only the old one has it, and renamed, obsoleted or uncategorized if it is deprecated for that reason in the new version and was not deprecated, or deprecated in another way, in the old one; anything else is unchanged and not listed. Refinements are no signals of their own here. Every report format lists the same changes. Comparing a registry with itself yields no change.",
 ["inputs"],"all pairs of registry versions over all item kinds and deprecation transitions",
 "Tests compare a few hand-made pairs.",
 ["crates/weaver_resolved_schema/src/lib.rs","crates/weaver_resolved_schema/src/v2/mod.rs","crates/weaver_version/src/schema_changes.rs"],
 [("v1 and v2 diff","crates/weaver_resolved_schema/src/lib.rs: diff; v2/mod.rs: diff")],
 observe=["`weaver registry diff` output"])
L="crates/weaver_live_check/src/"
prop("L01","Live check reports exactly the attribute problems a sample has",
 "For each attribute in a telemetry sample, live check reports that it is missing from the registry, matches a template, is deprecated, is not stable, has a value of the wrong type, or is an undocumented enum value, exactly when this is so, at the documented level. The longest matching template decides for template attributes, and a correct stable attribute gets no finding.",
 ["inputs"],"all registries and samples: attribute type x value type x stability x deprecation x template overlap",
 "Tests check chosen examples per advisor.",
 [L+"sample_attribute.rs",L+"live_checker.rs",L+"advice/type_advisor.rs",L+"advice/enum_advisor.rs",L+"advice/deprecated_advisor.rs",L+"advice/stability_advisor.rs"],
 [("advisors",L+"advice/")],observe=["findings attached to samples in the live-check report"])
prop("L02","Live check reports exactly the signal problems of metrics, events and spans",
 "For each metric and event sample, live check reports when the registry does not know it, when it is deprecated or not stable, when a metric's instrument or unit differs from the definition, and each attribute of the definition that a data point or event lacks, at the level given by its requirement (required: violation, recommended: improvement, conditional or opt-in: information). Nothing is reported for signals that conform.",
 ["inputs"],"all registries and samples: signal kind x instrument x unit x data point shape x set of present attributes x requirement levels",
 "Tests check chosen examples.",
 [L+"sample_metric.rs",L+"sample_log.rs",L+"sample_span.rs",L+"advice/type_advisor.rs",L+"advice/deprecated_advisor.rs",L+"advice/stability_advisor.rs"],
 [("required attribute check",L+"advice/type_advisor.rs: check_attributes"),("lookup",L+"live_checker.rs")],
 observe=["findings attached to samples in the live-check report"])
prop("L03","Live check statistics agree with the findings and samples reported",
 "At the end of a live check, the statistics equal a recount over the report: number of entities in total and by type, findings in total, by level, by id and by message, samples by highest level and without findings, and how often each registry and non-registry attribute, metric and event was seen. Coverage is the fraction of registry items seen, counted once each.",
 ["histories","inputs"],"all sequences of samples of any length and mix",
 "Tests look at one counter after a fixed small input.",
 [L+"stats.rs",L+"lib.rs",L+"sample_attribute.rs",L+"sample_metric.rs"],
 [("counters",L+"stats.rs: CumulativeStatistics")],[("counters","totals by type, level, id",L+"stats.rs")],
 ["statistics section of the report"])
prop("L04","Live check fails exactly when a finding reaches the fail-on level",
 "The exit code of a live check is non-zero if and only if at least one reported finding is at or above the configured level (violation above improvement above information); with the level `none`, or statistics switched off, findings never make it fail. This holds for every output format, streaming mode and position of the finding.",
 ["inputs","configurations","histories"],"all samples, fail-on levels, statistics/streaming settings and output targets",
 "The end-to-end live-check tests need network-like services and do not vary the level; the unit tests cover should_fail alone.",
 ["src/registry/live_check.rs",L+"stats.rs","crates/weaver_config/src/live_check.rs"],
 [("gate","src/registry/live_check.rs: command; stats.rs: should_fail")],
 observe=["process exit code"])
prop("L05","Finding overrides and filters apply in order and only where they match",
 "Configured level overrides and filters change exactly the findings they match by id, signal type and sample name: the first matching override sets the level, then any filter that names the finding, is above its level, or names the sample removes it; everything else is reported unchanged. Statistics and the exit code follow the modified findings.",
 ["configurations","inputs"],"all lists of overrides and filters with any scope, and all findings",
 "Tests try single rules.",
 [L+"finding_modifier.rs",L+"lib.rs","crates/weaver_config/src/live_check.rs"],
 [("rule application",L+"finding_modifier.rs: apply")],observe=["findings in the report"])
prop("L06","Entity associations are judged against the resource of the signal",
 "A metric, event or span whose definition associates it with entities is reported exactly when its own resource does not carry the identifying attributes required by that association, where a list means any one of its entries, and nested any-of and all-of expressions combine as such. Signals without associations, or whose resource satisfies them, are not reported, and one sample's resource never influences another's.",
 ["inputs","histories"],"all association expressions, entity identities and resources, in any order of samples",
 "Tests evaluate a few expressions.",
 [L+"advice/type_advisor.rs","src/registry/live_check.rs"],
 [("evaluation",L+"advice/type_advisor.rs")],observe=["findings in the report"])
prop("O01","Every export acknowledged before the stop is in the live-check report",
 "With an OTLP receiver, every export request acknowledged before a stop (stop request, signal or inactivity) is examined and reported exactly once, in arrival order, with the resource and scope it was sent with. After the stop the receiver finishes: a client that asked for the report over HTTP gets the complete report, the process ends, and the receiver never stops on inactivity while requests keep coming within the timeout.",
 ["schedules","histories"],"all interleavings of exports on several connections with stop requests and inactivity",
 "The live-check end-to-end tests are not runnable in the baseline and run one fixed sequence.",
 ["src/registry/otlp/mod.rs","src/registry/otlp/otlp_ingester.rs","src/registry/otlp/conversion.rs","src/registry/live_check.rs"],
 [("request channel and stop signals","src/registry/otlp/mod.rs: listen_otlp_requests"),("sample iterator","src/registry/otlp/otlp_ingester.rs: OtlpIterator")],
 observe=["report, exit of the process, HTTP response of /stop"])
prop("I01","Inferred registries describe exactly the telemetry observed",
 "The registry inferred from telemetry contains each observed span, metric and event once, with exactly the attributes seen on it, and each attribute once with the type first observed and at most five distinct example values, all of the kind of the first one, in order of appearance. The result depends only on the samples received, so inferring twice from the same telemetry gives the same registry.",
 ["inputs","histories"],"all sequences of samples",
 "Tests accumulate one or two samples; the hash order of a run decides the rest.",
 ["crates/weaver_infer/src/lib.rs","src/registry/infer.rs"],
 [("accumulation","crates/weaver_infer/src/lib.rs: AccumulatedSamples")],observe=["inferred registry"])
prop("M01","Markdown update only rewrites generated snippets, and is idempotent",
 "Updating a markdown file replaces the text between a snippet start marker and its end marker with the generated snippet and leaves every other line as it was; updating again changes nothing. A dry run writes nothing and fails exactly when an update would change the file, and a file that cannot be updated is left untouched.",
 ["inputs"],"all markdown files: any sequence of text lines, snippet markers of both kinds, nested or unterminated",
 "Tests update a few fixture files.",
 ["crates/weaver_semconv_gen/src/lib.rs","crates/weaver_semconv_gen/src/parser.rs","src/registry/update_markdown.rs"],
 [("line scanner","crates/weaver_semconv_gen/src/lib.rs: update_markdown_contents")],observe=["file contents, exit code"])
prop("G01","Generation writes exactly the files the template configuration calls for",
 "Generating from templates writes, for every template entry that matches a template file and whose condition holds, one file for the whole filtered input or one per element, at the configured path with the content of that input, and skips empty inputs; it writes nothing else. The result is the same on every run, whatever the number of threads, and a failing template makes the command fail.",
 ["inputs","schedules","configurations"],"all template configurations (patterns, modes, filters, conditions, file names, parameters) and inputs",
 "Tests generate from a few fixed template packages.",
 ["crates/weaver_forge/src/lib.rs","crates/weaver_forge/src/config.rs","crates/weaver_forge/src/output_processor.rs"],
 [("template matching and application modes","crates/weaver_forge/src/lib.rs: generate, process_template")],observe=["output directory, exit code"])
prop("G02","The strongest mention decides each template setting",
 "What a template sees is, for each parameter, the value of the command line, else of the parameter file, else of its entry, else of the nearest configuration file that mentions it, where null removes it; text maps, acronyms, comment formats and the list of entries come whole from the nearest configuration file that has them, single settings of white space and syntax one by one, and the project file adds its text maps and acronyms over them. Explicitly listed configuration files replace the search, the last one winning.",
 ["configurations"],"all stacks of configuration files, parameter files and command lines",
 "Unit tests merge two configurations per section.",
 ["crates/weaver_forge/src/config.rs","crates/weaver_forge/src/lib.rs","src/registry/generate.rs"],
 [("configuration merging","crates/weaver_forge/src/config.rs: override_with, merge_acronyms, merge_text_maps"),("parameters","crates/weaver_forge/src/lib.rs: try_new")],observe=["content of generated files"])
prop("P01","Every policy finding is reported and makes the check fail",
 "A registry check evaluates the policies of each stage (before resolution on every file, after resolution, and comparison with a baseline when one is given) and reports every finding of every stage once; the command exits non-zero if and only if there is at least one finding or error. Skipping policies reports none, and a stage without policies reports nothing.",
 ["inputs","configurations"],"all sets of policies per stage, registries that do or do not violate them, with and without baseline",
 "Tests run one policy directory.",
 ["src/weaver.rs","src/registry/check.rs","crates/weaver_checker/src/lib.rs","crates/weaver_common/src/diagnostic.rs"],
 [("stage evaluation","src/weaver.rs: check_policy, check_policy_stage"),("exit code","src/main.rs: process_diagnostics")],observe=["diagnostics and exit code of `weaver registry check`"])
prop("C01","Command line overrides project config overrides defaults",
 "For each setting of each command, the value used is the one on the command line if given, else the one in the nearest project configuration file upwards of the working directory (or in the one named explicitly, and only that), else the default; only the endpoint of `registry emit` is overruled by OTEL_EXPORTER_OTLP_ENDPOINT. A project file that cannot be read ends the run. Setting one field never changes another. Values left out at one level never hide values set at a lower level.",
 ["configurations"],"all combinations of settings present or absent on the command line and in the configuration file",
 "Tests check that fields exist on both sides, not which value wins in combination.",
 ["crates/weaver_config/src/effective.rs","crates/weaver_config/src/overrides.rs","crates/weaver_config/src/lib.rs","src/registry/mod.rs"],
 [("three layer merge","crates/weaver_config/src/effective.rs; src/registry/mod.rs: load_config")],observe=["behaviour of the command"])
prop("Q01","The servers answer exactly from the resolved registry",
 "`weaver serve` and `weaver registry mcp` find every attribute (templates too), metric, span, event and entity of the resolved registry by its exact name and nothing else. A search lists every item that passes the type, stability and deprecation filters and matches the query, once, the more relevant first and in registry order among equals; the total does not depend on limit and offset, and consecutive pages hold every match once. Without a query everything is listed in registry order. A namespace holds the attributes directly in it, its sub-namespaces, and counts all below it, for any separator. A filter that cannot be run is answered with an error. The tool live_check reports for each sample what `registry live-check` reports, whatever was checked before, and its compact form holds every finding of the full one. The MCP server writes nothing but the protocol on its standard output.",
 ["inputs"],"all registries, queries, filters, pages, prefixes and separators",
 "Tests search a fixed small registry with a few queries.",
 ["crates/weaver_search/src/lib.rs","crates/weaver_mcp/src/service.rs","src/serve/handlers.rs","src/registry/mcp.rs"],
 [("SearchContext::search, browse_namespace","crates/weaver_search/src/lib.rs"),("MCP tools","crates/weaver_mcp/src/service.rs"),("REST handlers","src/serve/handlers.rs")],observe=["HTTP responses","MCP responses"])
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
