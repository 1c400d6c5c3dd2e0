------------------------------- MODULE Config -------------------------------
(* Which value of each setting a command works with: the command line, else  *)
(* the project configuration file that counts, else the default.  The        *)
(* machine looks for the file from the working directory upwards (or takes   *)
(* the one that is named) and then layers the mentions one by one, in any    *)
(* order within a layer; Effective says the same without a machine.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Random, Density, Only
VARIABLES pc, cmd, places, cli, env, at, file, left, eff
vars == <<pc, cmd, places, cli, env, at, file, left, eff>>
R(S) == RandomElement(S)
P(k) == RandomElement(1..100) <= k
NoSet == [x \in {} |-> ""]

(* ------------------------------- settings ------------------------------ *)
Bool == {"true", "false"}
AB == {"a", "b"}
\* every setting: its values, and the one it has when nobody mentions it ("d" is something else than all values, "" is no value)
S(d, v) == [def |-> d, val |-> v]
Flag == S("false", Bool)
Settings ==
  [x \in {"registry.follow_symlinks", "registry.include_unreferenced", "registry.v2", "policy.skip", "policy.display_policy_coverage", "diagnostics.stdout", "update-markdown.dry_run", "emit.stdout",
          "live-check.no_stream", "live-check.no_stats", "live-check.emit.otlp_logs", "live-check.emit.otlp_logs_stdout"} |-> Flag]
  @@ [x \in {"registry.path"} |-> S("d", {"a", "b", "broken", "empty"})]
  @@ [x \in {"policy.paths"} |-> S("none", {"none", "a", "b", "ab"})]
  @@ [x \in {"diagnostics.format"} |-> S("ansi", {"ansi", "json", "gh_workflow_command"})]
  @@ [x \in {"diagnostics.template", "generate.templates", "generate.output", "stats.templates", "diff.templates", "package.output", "update-markdown.templates", "live-check.templates", "infer.output"} |-> S("d", AB)]
  @@ [x \in {"generate.target", "stats.output", "diff.output", "package.resolved_registry_uri", "update-markdown.markdown_dir", "update-markdown.attribute_registry_base_url", "update-markdown.target",
             "live-check.output", "live-check.advice_policies", "live-check.advice_data", "live-check.advice_preprocessor"} |-> S("", AB)]
  @@ [x \in {"stats.format"} |-> S("text", {"text", "json", "custom"})]
  @@ [x \in {"diff.format", "live-check.format"} |-> S("ansi", {"ansi", "json", "custom"})]
  @@ [x \in {"emit.endpoint", "live-check.emit.otlp_logs_endpoint"} |-> S("d", AB)]
  @@ [x \in {"live-check.input_source"} |-> S("otlp", {"a", "b"})]
  @@ [x \in {"live-check.input_format"} |-> S("json", {"json", "text"})]
  @@ [x \in {"live-check.fail_on"} |-> S("violation", {"violation", "improvement", "information", "none"})]
  @@ [x \in {"live-check.finding_filters", "live-check.finding_level_overrides"} |-> S("", AB)]
  @@ [x \in {"infer.grpc_port", "infer.admin_port", "live-check.otlp.grpc_port", "live-check.otlp.admin_port", "serve.bind"} |-> S("d", AB)]
  @@ [x \in {"infer.grpc_address", "live-check.otlp.grpc_address"} |-> S("any", AB)]
  @@ [x \in {"infer.inactivity_timeout", "live-check.otlp.inactivity_timeout"} |-> S("d", AB)]
  @@ [x \in {"serve.cors_origins", "mcp.advice_policies", "mcp.advice_data", "mcp.advice_preprocessor"} |-> S("", AB)]
  @@ [x \in {"mcp.namespace_separator"} |-> S(".", {".", "_", "-"})]
  @@ [x \in {"mc.s", "mc.t"} |-> S("d", AB)]
Names == DOMAIN Settings
\* nothing on the command line stands for these, and these can only be said there
FileOnly == {"live-check.finding_filters", "live-check.finding_level_overrides"}
CliVal(s) == IF s \in FileOnly THEN {} ELSE Settings[s].val \ (CASE s = "registry.path" -> {"empty"} [] s = "policy.paths" -> {"none"} [] OTHER -> {})
Section == [x \in Names |-> CASE x \in {"registry.path", "registry.follow_symlinks", "registry.include_unreferenced", "registry.v2"} -> "registry" [] x \in {"policy.paths", "policy.skip", "policy.display_policy_coverage"} -> "policy"
  [] x \in {"diagnostics.format", "diagnostics.template", "diagnostics.stdout"} -> "diagnostics" [] x \in {"update-markdown.dry_run", "update-markdown.templates", "update-markdown.markdown_dir", "update-markdown.attribute_registry_base_url", "update-markdown.target"} -> "update-markdown"
  [] x \in {"generate.templates", "generate.output", "generate.target"} -> "generate" [] x \in {"stats.templates", "stats.output", "stats.format"} -> "stats" [] x \in {"diff.templates", "diff.output", "diff.format"} -> "diff"
  [] x \in {"package.output", "package.resolved_registry_uri"} -> "package" [] x \in {"emit.stdout", "emit.endpoint"} -> "emit" [] x \in {"serve.bind", "serve.cors_origins"} -> "serve"
  [] x \in {"infer.output", "infer.grpc_port", "infer.admin_port", "infer.grpc_address", "infer.inactivity_timeout"} -> "infer" [] x \in {"mc.s", "mc.t"} -> "mc"
  [] x \in {"mcp.advice_policies", "mcp.advice_data", "mcp.advice_preprocessor", "mcp.namespace_separator"} -> "mcp" [] OTHER -> "live-check"]
Otlp == {"live-check.otlp.grpc_port", "live-check.otlp.admin_port", "live-check.otlp.grpc_address", "live-check.otlp.inactivity_timeout"}
Cmds == {"check", "resolve", "generate", "stats", "diff", "package", "update-markdown", "emit", "live-check", "live-check-otlp", "infer", "serve", "mcp"}
\* What a command reads.  stats, diff, update-markdown, infer, mcp have no policies.
Reads(c) == CASE c = "mc" -> {"mc.s", "mc.t"} [] c = "live-check-otlp" -> {x \in Names : Section[x] \in {"registry", "diagnostics"}} \cup Otlp
  [] c = "live-check" -> {x \in Names : Section[x] \in {"registry", "policy", "diagnostics", "live-check"}} \ Otlp
  [] OTHER -> {x \in Names : Section[x] = c \/ (Section[x] = "registry" /\ c # "infer") \/ (Section[x] = "policy" /\ c \in {"check", "resolve", "generate", "package", "emit", "serve"}) \/ Section[x] = "diagnostics"}
\* said on the command line whenever no file says it: without them the command would listen on ports that everybody uses
Needed == {"live-check.input_source", "infer.grpc_port", "infer.admin_port", "infer.inactivity_timeout", "live-check.otlp.grpc_port", "live-check.otlp.admin_port", "live-check.otlp.inactivity_timeout", "serve.bind"}
\* the environment has the last word on this one
Env == "emit.endpoint"

(* ------------------------------ declarative ---------------------------- *)
\* places: <<working directory, the one above, the one above that, the file named on the command line>>; st: none, dir (a directory of that name), broken (not TOML), ok
Walk == 1..3
Found(pl) == pl[4].named
Chosen(pl) == IF pl[4].named THEN 4 ELSE LET f == {i \in Walk : pl[i].st \in {"ok", "broken"}} IN IF f = {} THEN 0 ELSE CHOOSE i \in f : \A j \in f : i <= j
Refused(pl) == Chosen(pl) # 0 /\ pl[Chosen(pl)].st # "ok"
FileSet(pl) == IF Chosen(pl) = 0 \/ Refused(pl) THEN NoSet ELSE pl[Chosen(pl)].set
\* a path that is no path is as if it were not there
Means(s, v) == ~(s = "registry.path" /\ v = "empty")
Effective(pl, cl, s) == IF s = Env /\ env # "" THEN env ELSE IF s \in DOMAIN cl THEN cl[s] ELSE LET f == FileSet(pl) IN IF s \in DOMAIN f /\ Means(s, f[s]) THEN f[s] ELSE Settings[s].def

(* -------------------------------- machine ------------------------------ *)
Keep == UNCHANGED <<cmd, places, cli, env>>
Start == pc = "start" /\ Keep /\ IF places[4].named THEN at' = 4 /\ pc' = "take" /\ UNCHANGED <<file, left, eff>> ELSE at' = 1 /\ pc' = "walk" /\ UNCHANGED <<file, left, eff>>
Step == pc = "walk" /\ Keep /\ UNCHANGED <<file, left, eff>> /\ IF at \notin Walk THEN at' = 0 /\ pc' = "take" ELSE IF places[at].st \in {"ok", "broken"} THEN pc' = "take" /\ at' = at ELSE at' = at + 1 /\ pc' = pc
Take == pc = "take" /\ Keep /\ UNCHANGED at /\ IF at # 0 /\ places[at].st # "ok" THEN pc' = "refused" /\ UNCHANGED <<file, left, eff>>
  ELSE pc' = "file" /\ file' = (IF at = 0 THEN NoSet ELSE places[at].set) /\ eff' = [s \in Reads(cmd) |-> Settings[s].def] /\ left' = DOMAIN file' \cap Reads(cmd)
LayerFile == pc = "file" /\ \E s \in left : left' = left \ {s} /\ (eff' = IF Means(s, file[s]) THEN [eff EXCEPT ![s] = file[s]] ELSE eff) /\ Keep /\ UNCHANGED <<pc, at, file>>
ToCli == pc = "file" /\ left = {} /\ pc' = "cli" /\ left' = DOMAIN cli /\ Keep /\ UNCHANGED <<at, file, eff>>
LayerCli == pc = "cli" /\ \E s \in left : left' = left \ {s} /\ eff' = [eff EXCEPT ![s] = cli[s]] /\ Keep /\ UNCHANGED <<pc, at, file>>
ToRun == pc = "cli" /\ left = {} /\ pc' = "run" /\ Keep /\ UNCHANGED <<at, file, left>> /\ eff' = IF Env \in Reads(cmd) /\ env # "" THEN [eff EXCEPT ![Env] = env] ELSE eff

(* -------------------------------- random ------------------------------- *)
\* a file speaks of the command's own settings most of the time, and of others
RSet(c, k) == LET ks == {s \in Names : Section[s] # "mc" /\ (s \in Reads(c) \/ c # "live-check-otlp" \/ Section[s] \notin {"policy", "live-check"}) /\ P(IF s \in Reads(c) THEN k ELSE 15)} IN [s \in ks |-> R(Settings[s].val)]
RPlace(c) == [st |-> LET k == R(1..100) IN IF k <= 40 THEN "none" ELSE IF k <= 48 THEN "dir" ELSE IF k <= 52 THEN "broken" ELSE "ok", set |-> RSet(c, Density), named |-> FALSE]
RNamed(c) == [st |-> LET k == R(1..100) IN IF k <= 5 THEN "none" ELSE IF k <= 8 THEN "broken" ELSE "ok", set |-> RSet(c, Density), named |-> P(25)]
RCli(c, pl) == LET must == (Needed \cap Reads(c)) \ DOMAIN FileSet(pl) ks == {s \in Reads(c) : CliVal(s) # {} /\ (P(Density \div 2) \/ s \in must \/ (s = "registry.path" /\ P(60)))}
  \* the output directory of generate is the second positional argument
  said == IF "generate.target" \in ks THEN ks ELSE ks \ {"generate.output"} IN [s \in said |-> IF s = "registry.path" THEN R({"a", "a", "b", "b", "broken"}) ELSE R(CliVal(s))]
Init == pc = "make" /\ cmd = "" /\ places = <<>> /\ cli = NoSet /\ env = "" /\ at = 0 /\ file = NoSet /\ left = {} /\ eff = NoSet
MakeR == /\ Random /\ pc = "make" /\ pc' = "print" /\ UNCHANGED <<at, file, left, eff>>
  /\ \E c \in {IF Only # "" THEN Only ELSE R(Cmds \ {"live-check-otlp", "infer", "serve", "mcp"})} : cmd' = c
    /\ \E pl \in {TLCEval(<<RPlace(c), RPlace(c), RPlace(c), RNamed(c)>>)} : places' = pl
      /\ \E cl \in {TLCEval(RCli(c, pl))} : cli' = cl
    /\ \E e \in {IF c = "emit" /\ P(30) THEN R(AB) ELSE ""} : env' = e
PrintR == /\ pc = "print" /\ pc' = "stop" /\ UNCHANGED <<cmd, places, cli, env, at, file, left, eff>>
  /\ PrintT("@@" \o ToJson([cmd |-> cmd, places |-> places, cli |-> cli, env |-> env, refused |-> Refused(places), eff |-> [s \in Reads(cmd) |-> Effective(places, cli, s)]]))

(* ------------------------------ exhaustive ----------------------------- *)
Sets == UNION {[D -> AB] : D \in SUBSET {"mc.s", "mc.t"}}
MakeA == /\ ~Random /\ pc = "make" /\ pc' = "start" /\ UNCHANGED <<at, file, left, eff, env>> /\ cmd' = "mc"
  /\ \E a, b, c \in {[st |-> s, set |-> NoSet, named |-> FALSE] : s \in {"none", "dir", "broken"}} \cup {[st |-> "ok", set |-> x, named |-> FALSE] : x \in Sets} :
     \E n \in {[st |-> s, set |-> NoSet, named |-> TRUE] : s \in {"none", "broken"}} \cup {[st |-> "ok", set |-> x, named |-> m] : x \in {[y \in {} |-> ""], [y \in {"mc.s"} |-> "a"]}, m \in BOOLEAN} : places' = <<a, b, c, n>>
  /\ \E x \in Sets : cli' = x
Next == MakeR \/ PrintR \/ MakeA \/ Start \/ Step \/ Take \/ LayerFile \/ ToCli \/ LayerCli \/ ToRun
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Without(f, s) == [x \in DOMAIN f \ {s} |-> f[x]]
WithoutP(pl, s) == [i \in DOMAIN pl |-> [pl[i] EXCEPT !.set = Without(@, s)]]
\* the machine ends with what Effective says, or refuses
Layered == (pc = "run" => ~Refused(places) /\ \A s \in Reads(cmd) : eff[s] = Effective(places, cli, s)) /\ (pc = "refused" => Refused(places))
\* saying or not saying one setting never changes another
Independent == pc = "run" => \A s, t \in Reads(cmd) : s # t => Effective(WithoutP(places, s), Without(cli, s), t) = Effective(places, cli, t)
\* a file that is not the nearest changes nothing
Whole == pc = "run" /\ Chosen(places) # 4 => \A i \in Walk : i > Chosen(places) /\ Chosen(places) # 0 => \A s \in Reads(cmd) : Effective([places EXCEPT ![i] = [st |-> "none", set |-> NoSet, named |-> FALSE]], cli, s) = eff[s]
\* the command line is never overruled, except by the environment
CliWins == pc = "run" => \A s \in DOMAIN cli : s = Env \/ eff[s] = cli[s]
=============================================================================
