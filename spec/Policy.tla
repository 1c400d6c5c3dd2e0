------------------------------- MODULE Policy -------------------------------
(* Checking a registry against policies: which rules are active, what each  *)
(* stage finds, what is reported, and the exit code.  The machine runs the  *)
(* stages one evaluation at a time (files in any order, as threads take     *)
(* them); Report and Fails say, without any machine, what must come out.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Random, Marks, MaxFiles, MaxRules
Stages == {"before_resolution", "after_resolution", "comparison_after_resolution"}

\* files:  [fmt, marks]: the marks are texts that rules look for
\* rules:  [stage, cond, m, form, lvl, place]; stage "other" is a package that is no stage
\* run:    [cmd, v2, skip, base, bmarks, bbroken, fatal, broken, future, conf]
VARIABLES pc, files, rules, run, left, diag, exit, done
vars == <<pc, files, rules, run, left, diag, exit, done>>
R(S) == RandomElement(S)
P(k) == RandomElement(1..100) <= k

(* ------------------------- the rules that count ------------------------ *)
\* Places: "root" and "sub" in the registry, "hidden" in a directory or file of it that starts with a dot, "dep" in a registry that it depends on,
\* "base" in the baseline, "file"/"dir" named by -p (a file, or a directory searched through), "dirhidden" hidden in such a directory, "conf" named by the project configuration.
Cli == {"file", "dir", "dirhidden"}
Places == {"root", "sub", "hidden", "dep", "base", "conf"} \cup Cli
\* -p replaces the list of the project configuration
OnCli == run.broken \in Cli \/ \E r \in rules : r.place \in Cli
Counts(p) == p \in {"root", "sub", "file", "dir"} \/ (p = "conf" /\ ~OnCli)
Skipped == run.skip \in {"cli", "conf"}          \* "overridden": the configuration says skip, the command line says do not
Active(s) == IF Skipped THEN {} ELSE {r \in rules : r.stage = s /\ Counts(r.place)}

(* --------------------------- one evaluation ---------------------------- *)
\* What one evaluation sees: the marks of the input and (comparison only) of the baseline.
Fires(r, in, data) ==
  CASE r.cond = "mark" -> r.m \in in
    [] r.cond = "always" -> TRUE
    [] r.cond = "none" -> r.m \notin in
    [] r.cond = "gone" -> r.m \in data /\ r.m \notin in
    [] r.cond = "kept" -> r.m \in data /\ r.m \in in
\* What a rule finds: equal findings of one evaluation are one finding.
Finding(r) == [form |-> r.form, lvl |-> IF r.form = "attribute" THEN "violation" ELSE r.lvl, m |-> IF r.cond \in {"always"} THEN 0 ELSE r.m, cond |-> r.cond]
Evaluate(s, where, in, data) ==
  LET fs == {r \in Active(s) : Fires(r, in, data)} IN
  IF \E r \in fs : r.form = "bad" THEN {[k |-> "invalid", at |-> where, s |-> s]} ELSE {[k |-> "finding", at |-> where, s |-> s, f |-> Finding(r)] : r \in fs}

AllMarks == UNION {files[i].marks : i \in DOMAIN files}
\* package knows version 2 only; check is the only one that compares
V2 == run.v2 \/ run.cmd = "package"
Before == IF Skipped \/ V2 THEN {} ELSE UNION {Evaluate("before_resolution", i, files[i].marks, {}) : i \in DOMAIN files}
Unsupported == V2 /\ Active("before_resolution") # {}
After == Evaluate("after_resolution", 0, AllMarks, {})
Compared == run.cmd = "check" /\ run.base
Comparison == IF Compared THEN Evaluate("comparison_after_resolution", 0, AllMarks, run.bmarks) ELSE {}
\* a policy that cannot be parsed ends the check at once
BrokenPolicy == ~Skipped /\ run.broken # "-" /\ Counts(run.broken)
BrokenBase == ~Skipped /\ Compared /\ run.bbroken
Warned == {[k |-> "unstable", at |-> i] : i \in {j \in DOMAIN files : files[j].fmt = "v2"}} \cup IF Unsupported THEN {[k |-> "unsupported", at |-> 0]} ELSE {}
ErrorKinds == {"deprecated", "finding", "invalid", "broken", "unresolved"}

(* ------------------------------- declarative --------------------------- *)
\* resolve is deprecated, and refused with --future
Refused == run.cmd = "resolve" /\ run.future
Report == IF Refused THEN {[k |-> "deprecated", at |-> 0]} ELSE IF BrokenPolicy THEN {[k |-> "broken", at |-> 0]}
  ELSE IF run.fatal THEN Before \cup (IF Unsupported THEN {[k |-> "unsupported", at |-> 0]} ELSE {}) \cup {[k |-> "unresolved", at |-> 0]}
  ELSE IF BrokenBase THEN Before \cup Warned \cup {[k |-> "broken", at |-> 0]}
  ELSE Before \cup Warned \cup After \cup Comparison
Fails == \E d \in Report : d.k \in ErrorKinds \/ run.future
\* package writes its files only when nothing is wrong; resolve and generate write them whatever the policies say
Written == run.cmd # "check" /\ ~Refused /\ ~BrokenPolicy /\ ~run.fatal /\ (run.cmd = "package" => ~Fails)

(* ------------------------------- machine ------------------------------- *)
Keep == UNCHANGED <<files, rules, run>>
Stop(d) == pc' = "end" /\ diag' = diag \o d /\ left' = {}
Start == pc = "start" /\ Keep /\ UNCHANGED <<exit, done>> /\ IF Refused THEN Stop(<<[k |-> "deprecated", at |-> 0]>>) ELSE IF BrokenPolicy THEN Stop(<<[k |-> "broken", at |-> 0]>>)
  ELSE pc' = "before" /\ left' = (IF V2 THEN {} ELSE DOMAIN files) /\ diag' = IF Unsupported THEN <<[k |-> "unsupported", at |-> 0]>> ELSE <<>>
EvalFile == pc = "before" /\ ~Random /\ \E i \in left : left' = left \ {i} /\ diag' = diag \o SetToSeq(Evaluate("before_resolution", i, files[i].marks, {})) /\ Keep /\ UNCHANGED <<pc, exit, done>>
Resolve == pc = "before" /\ left = {} /\ Keep /\ UNCHANGED <<exit, done>> /\ IF run.fatal THEN Stop(<<[k |-> "unresolved", at |-> 0]>>)
  ELSE pc' = (IF Compared THEN "baseline" ELSE "after") /\ left' = {} /\ diag' = diag \o SetToSeq({d \in Warned : d.k = "unstable"})
Baseline == pc = "baseline" /\ Keep /\ UNCHANGED <<exit, done>> /\ IF BrokenBase THEN Stop(<<[k |-> "broken", at |-> 0]>>) ELSE pc' = "after" /\ UNCHANGED <<left, diag>>
EvalAfter == pc = "after" /\ Keep /\ UNCHANGED <<left, exit, done>> /\ diag' = diag \o SetToSeq(After) /\ pc' = IF Compared THEN "compare" ELSE "end"
EvalCompare == pc = "compare" /\ Keep /\ UNCHANGED <<left, exit, done>> /\ diag' = diag \o SetToSeq(Comparison) /\ pc' = "end"
Exit == pc = "end" /\ ~done /\ done' = TRUE /\ Keep /\ UNCHANGED <<pc, left, diag>> /\ exit' = IF \E j \in DOMAIN diag : diag[j].k \in ErrorKinds \/ run.future THEN 1 ELSE 0

(* ------------------------------- random -------------------------------- *)
Forms == {"unified", "advice", "attribute", "signal"}
RRule(z_) == [stage |-> IF P(10) THEN "other" ELSE R(Stages), cond |-> LET k == R(1..100) IN IF k <= 55 THEN "mark" ELSE IF k <= 63 THEN "always" ELSE IF k <= 74 THEN "none" ELSE IF k <= 90 THEN "gone" ELSE "kept",
   m |-> R(1..Marks), form |-> IF P(4) THEN "bad" ELSE R(Forms), lvl |-> R({"information", "improvement", "violation"}), place |-> IF P(50) THEN R({"root", "sub"}) ELSE R(Places)]
RMarks(k) == {m \in 1..Marks : P(k)}
RRun(z_) == LET cmd == R({"check", "check", "check", "resolve", "generate", "package"}) base == P(55) IN TLCEval(
  [cmd |-> cmd, v2 |-> P(35), skip |-> LET k == R(1..100) IN IF k <= 82 THEN "no" ELSE IF k <= 88 THEN "cli" ELSE IF k <= 94 THEN "conf" ELSE "overridden",
   base |-> base, bmarks |-> IF base THEN RMarks(50) ELSE {}, bbroken |-> base /\ P(5), fatal |-> P(8), broken |-> IF P(90) THEN "-" ELSE R(Places \ {"base"}), future |-> P(15)])
Run0 == [cmd |-> "check", v2 |-> FALSE, skip |-> "no", base |-> FALSE, bmarks |-> {}, bbroken |-> FALSE, fatal |-> FALSE, broken |-> "-", future |-> FALSE]
Init == pc = "make" /\ files = <<>> /\ rules = {} /\ run = Run0 /\ left = {} /\ diag = <<>> /\ exit = 0 /\ done = FALSE
MakeR == /\ Random /\ pc = "make" /\ pc' = "print" /\ UNCHANGED <<left, diag, exit, done>>
  /\ \E n \in {R(1..MaxFiles)} : \E fs \in {TLCEval([i \in 1..n |-> [fmt |-> R({"v1", "v1", "v2"}), marks |-> RMarks(35)]])} : files' = fs
  /\ \E k \in {R(0..MaxRules)} : \E rs \in {TLCEval({RRule(i) : i \in 1..k})} : rules' = rs
  /\ \E r \in {RRun(0)} : run' = r
PrintR == /\ pc = "print" /\ pc' = "stop" /\ UNCHANGED <<files, rules, run, left, diag, exit, done>>
  /\ PrintT("@@" \o ToJson([files |-> files, rules |-> rules, run |-> run, report |-> Report, fails |-> Fails, written |-> Written]))

(* ----------------------------- exhaustive ------------------------------ *)
Rule0 == [stage |-> "before_resolution", cond |-> "mark", m |-> 1, form |-> "unified", lvl |-> "information", place |-> "root"]
RulePool == {[Rule0 EXCEPT !.stage = s, !.cond = c, !.place = p] : s \in Stages, c \in {"mark", "gone"}, p \in {"root"} \cup IF MaxRules > 2 THEN {"conf"} ELSE {}}
  \cup {[Rule0 EXCEPT !.form = "bad"], [Rule0 EXCEPT !.stage = "after_resolution", !.cond = "none"], [Rule0 EXCEPT !.place = "file", !.lvl = "violation"], [Rule0 EXCEPT !.place = "hidden", !.cond = "always"]}
MakeA == /\ ~Random /\ pc = "make" /\ pc' = "start" /\ UNCHANGED <<left, diag, exit, done>>
  /\ \E n \in 1..MaxFiles : \E fs \in [1..n -> {[fmt |-> f, marks |-> m] : f \in {"v1", "v2"}, m \in SUBSET (1..Marks)}] : (fs[1].fmt = "v1" \/ MaxRules > 2) /\ files' = fs
  /\ \E x, y \in RulePool : rules' = {x, y}
  /\ \E c \in {"check", "package", "resolve"}, v \in BOOLEAN, s \in {"no", "conf"}, b \in {0, 1, 2, 3}, w \in {"-", "root", "fatal"}, fu \in BOOLEAN :
       run' = [cmd |-> c, v2 |-> v, skip |-> s, base |-> b > 0, bmarks |-> IF b = 2 THEN {1} ELSE {}, bbroken |-> b = 3, fatal |-> w = "fatal", broken |-> IF w = "root" THEN w ELSE "-", future |-> fu]
Next == MakeR \/ PrintR \/ MakeA \/ Start \/ EvalFile \/ Resolve \/ Baseline \/ EvalAfter \/ EvalCompare \/ Exit
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* at the end exactly the report, each entry once, and the exit code that goes with it
Complete == done => ToSet(diag) = Report /\ Len(diag) = Cardinality(Report) /\ (exit = 1) = Fails
\* nothing is ever reported that is not in the report
Sound == pc # "make" => ToSet(diag) \subseteq Report
\* skipping the policies silences them all
Silent == Skipped => \A j \in DOMAIN diag : diag[j].k \notin {"finding", "invalid", "unsupported"}
\* a stage without a rule reports nothing of its own
NoStage == (pc = "end" /\ \A s \in Stages : Active(s) = {}) => \A j \in DOMAIN diag : diag[j].k \notin {"finding", "invalid"}
=============================================================================
