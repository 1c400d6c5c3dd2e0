"""Which module decides which property, and what is said about it in MANIFEST.json."""
MODULES = {"C01": "config", "Q01": "search", "P01": "policy", "G01": "generate", "G02": "generate", "M01": "markdown", "I01": "infer", "O01": "receiver", "R01": "resolve", "R02": "resolve", "R03": "resolve", "R05": "resolve",
  "D01": "graph", "D02": "imports", "D03": "imports", "S01": "diff", "R04": "unique", "L01": "livecheck", "L02": "livecheck", "L03": "livecheck", "L04": "livecheck", "L05": "livecheck", "L06": "livecheck"}
T = "TLA+ specification (spec/%s.tla) model-checked with TLC; TLC-generated behaviours replayed into the weaver binary"
NOTES = {
 "C01": (T % "Config", "TLC checks that looking for the project file and layering the mentions one by one, in any order, gives every setting the value of its nearest mention, and that settings are independent (all sets of mentions of two settings in three directories, a named file and the command line). Random project files (in three directories, named, broken, or directories of that name), command lines and environments are given to the 13 commands, and the value each works with is read off its behaviour: registry, form, policies, templates, formats, outputs, dry runs, findings, endpoints connected to, addresses and ports listened on, timeouts."),
 "Q01": (T % "Search", "TLC checks that filtering in any order, ranking item by item in any order and cutting a page gives the answer said at once, that pages partition the matches, that an exact name comes first, and that namespaces form a tree (all registries of up to 2 of 24 items, 3 in depth). Random registries (version 1 and 2, up to 1010 items) are served by `weaver serve` and `registry mcp`; lookups, searches, filters, statistics and namespaces are compared with the specification's answers, and the tool live_check with the findings of LiveCheck.tla."),
 "P01": (T % "Policy", "TLC checks that the stages, evaluated file by file in any order, report exactly what the rules that count find, once each, with the exit code that goes with it; random registries, sets of rules (all stages, five kinds of conditions, six forms of findings, nine places policy files can lie in), baselines, failures and flags are run through `registry check`, `resolve`, `generate` and `package`, and every diagnostic, the exit code and what was written compared."),
 "G01": (T % "Generate", "TLC checks that applying entries to templates and rendering elements in any order leaves the wanted files, and an error exactly when something fails; random sets of templates, entries (patterns, modes, filters, conditions, file names, escaping, parameters) and files already there are generated with several thread counts and every file of the output directory compared. Two renderings to one path may come in either order and are only checked for existence."),
 "G02": (T % "Generate", "TLC checks that merging configuration files one by one gives the nearest mention of each setting; random stacks of up to 4 configuration files (searched or listed), parameter file, command-line parameters and project file are generated from, and each setting is read off the generated text."),
 "R01": (T % "Resolve", "TLC checks exhaustively, for small registries and every load order, that the pass-based resolution machine ends in the declarative override semantics; thousands of random registries (16 kinds of groups, 10 attribute fields) are resolved by the real binary and compared field by field, in version 1 and version 2 form. Bounded to the generated registries; values are abstracted to who set them."),
 "R02": (T % "Resolve", "As R01; for every generated registry success, or the exact set of unresolved extends/include/attribute references, is compared with the specification, including cycles, missing targets, include conflicts and chains of 16 groups."),
 "R03": (T % "Resolve", "TLC checks that all load orders of the machine are confluent; each generated registry is resolved in five file layouts (order, splitting, file names, directories, thread counts) whose outputs must be equal and in canonical order."),
 "R05": (T % "Resolve", "The version 2 form of each generated registry, directly, packaged with attribute indexes, and read back from the package, is compared with the form the specification gives."),
 "L01": (T % "LiveCheck", "Random registries and attribute samples (type x value class x template overlap x stability x deprecation x declared type) are checked by the real binary, in v1 and v2 form and all report formats; the findings of every attribute, with level and context, must equal those of the specification. TLC checks the rules exhaustively on small pools."),
 "L02": (T % "LiveCheck", "As L01 for metrics, events, spans with data points, exemplars, span events and links: unknown, deprecated, unstable, instrument, unit, and each attribute of the definition that is not present."),
 "L03": (T % "LiveCheck", "TLC checks that the running statistics equal a recount for every order of the samples; for each replayed behaviour the statistics of the real report are recounted from the findings of the same report, and coverage is compared with the specification."),
 "L04": (T % "LiveCheck", "Exit code against the highest reported level for all --fail-on values, with and without statistics, filters and overrides."),
 "L05": (T % "LiveCheck", "Random overrides and filters (ids, levels, signal types, name globs, exclusions): reported findings must be the modified raw findings of the specification, and only those; statistics and exit code follow."),
 "L06": (T % "LiveCheck", "Random association expressions (nested one_of/all_of) and resources: entity findings per signal must equal the evaluation against the resource last seen."),
 "D02": (T % "Import", "TLC checks, for every pair of dependencies and every order of visiting what they offer, that nothing excluded or internal of another registry is ever contained; random graphs of registries (raw of both formats, and packaged) in which a main registry refers to, refines, associates with, includes and imports declarations, are resolved by the real binary: the exact set of errors (which use of which excluded or missing declaration), or the text behind every use."),
 "D03": (T % "Import", "TLC checks that the import machine ends with exactly what the patterns name among what the dependencies offer, each once; random graphs with patterns per family (names, ids, globs, alternatives), re-exported through several registries and formats and with --include-unreferenced, are resolved by the real binary: every imported declaration with its text, attributes, levels and origin, nothing else, and every pattern that names nothing. A group of a package met on two ways is a known finding and not generated."),
 "S01": (T % "Diff", "TLC checks, for every visiting order, that the list of changes is exactly the declarative difference, applies, and chains over histories; random histories of 24 items in all categories are rendered in version 1 or 2 files and every report format of `registry diff` (json, markdown, ansi, statistics), from sources, version 2 sources or packages, is compared with the specification."),
 "D01": (T % "Graph", "TLC checks the loading machine (stack, chosen versions, first error) against the declarative reading for all small graphs; thousands of random graphs (up to 12 registry versions, packages, cycles, majors, depth limit, attributes that disappear) are resolved by the real binary: error kind, warnings, and the version every text of the main registry comes from must be those of the specification. Refinements of passed-on signals, and imports where packages of several versions meet, are known findings and not generated."),
 "R04": (T % "Unique", "TLC checks that the indexes, filled in any order, report exactly the clashing declarations (all pairs of declarations); random registries of 2, 5 and 12 declarations of all forms and types are resolved and checked, and the diagnostics (identifier, groups, files) must be exactly those of the specification; without any, no declaration is missing in the version 2 form."),
 "M01": (T % "Markdown", "TLC checks that the line scanner equals the block-wise reading for every file up to 6 lines over all kinds of markers, and that updates are idempotent and agree with dry runs; random histories (edits of lines and definitions, updates, dry runs over a directory of files) are replayed and every byte of every file, and each exit code, compared."),
 "I01": (T % "Infer", "TLC checks that accumulating observations one at a time equals the reading of all telemetry at once; random export requests (4 kinds of telemetry, nested values, repeated names and values) are sent over gRPC to `registry infer` and the written registry compared entirely; the inferred registry must also load without errors."),
 "O01": ("TLA+ specifications (spec/Receiver.tla, spec/ReceiverTrace.tla) model-checked with TLC; TLC-generated client scripts run against the real receiver, and the recorded histories judged by TLC against the specification", "TLC checks the machine of clients, bounded queue, stop marks and inactivity clock against the predicate that says which reports a history admits (safety and liveness); hundreds of recorded histories of real processes (several connections, bursts over the queue's size, stop requests, signals, inactivity, late exports) are judged by the same predicate. Schedules are those the operating system gives."),
}
NOT_APPLICABLE = {}
