----------------------------- MODULE LiveCheck -----------------------------
(***************************************************************************)
(* Live check of telemetry samples against a registry (weaver_live_check). *)
(*                                                                         *)
(* State: a registry (attributes, metrics, events, entities), the          *)
(* configuration (level overrides, filters, fail-on level, statistics), the *)
(* resource last seen, the report (one result per sample entity) and the   *)
(* running statistics.  Each step ingests one sample.                      *)
(*                                                                         *)
(* Names are sequences of segments (<<"a","t">> is a.t).                   *)
(* Properties: L01 (attribute findings), L02 (signal findings), L03        *)
(* (statistics = recount), L04 (exit code), L05 (overrides and filters),   *)
(* L06 (entity associations).                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Functions

CONSTANTS Random,      \* TRUE: random behaviours are generated and printed; FALSE: all behaviours of the small pools
          NSamples,    \* number of samples per behaviour
          Mode         \* "attr" | "signal" | "stats" | "mod" | "entity" | "exit": what the generation concentrates on

None == "-"
R(S) == RandomElement(S)
Pct(p) == R(1..100) <= p
SetToSeq1(S) == SetToSeq(S)

(* ------------------------------- pools -------------------------------- *)
Prims == {"boolean", "int", "double", "string", "any", "string[]", "int[]", "double[]", "boolean[]"}
Types == [c : {"p", "t"}, t : Prims] \cup [c : {"e"}, t : {"string", "int"}]
NamePool == << <<"a", "x">>, <<"a", "y">>, <<"a">>, <<"b", "t">>, <<"b", "t", "u">>, <<"b", "x">>, <<"c", "d", "e">>, <<"c", "d", "t">>, <<"s">> >>
Names == {NamePool[i] : i \in 1..Len(NamePool)}
OtherNames == { <<"z">>, <<"z", "q">>, <<"a", "x", "k">>, <<"a", "k">>, <<"b", "t", "k">>, <<"b", "t", "u", "k">>, <<"b", "t", "u", "k", "l">>,
                <<"c", "d", "t", "k">>, <<"c", "d", "k">>, <<"c", "k">>, <<"a", "Bad">>, <<"b", "t", "Bad">>, <<"Bad">>, <<"b", "t", "u", "v", "w">>,
                <<"b", "tx">>, <<"b", "t", "ux">>, <<"c", "d", "tk">>, <<"c", "d", "t", "k", "l">>, <<"sx">>, <<"c", "dx">> }
Stabs == {"stable", "development", "alpha", "beta", "release_candidate"}
Deps == {None, "renamed", "obsoleted", "uncategorized"}
\* value classes and the type that is inferred from them
ValType == [none |-> None, null |-> None, s1 |-> "string", s2 |-> "string", sempty |-> "string", i1 |-> "int", i2 |-> "int", neg |-> "int", big |-> "int",
            d |-> "double", d1 |-> "double", b |-> "boolean", ss |-> "string[]", sn |-> "string[]", is |-> "int[]", in |-> "int[]", ds |-> "double[]", id |-> "double[]",
            di |-> "double[]", bs |-> "boolean[]", empty |-> None, nulls |-> None, mixed |-> None, obj |-> None]
Vals == DOMAIN ValType
ReqLevels == {"required", "recommended", "recommended_if", "opt_in", "opt_in_if", "conditionally_required"}
Metrics == { <<"m", "one">>, <<"m", "two">> }
OtherMetrics == { <<"m", "three">>, <<"m", "Zed">>, <<"m", "one", "x">>, <<"q">> }
Events == { <<"e", "one">>, <<"e", "two">> }
OtherEvents == { <<>>, <<"e", "three">>, <<"e", "one", "x">> }
Instr == {"counter", "updowncounter", "gauge", "histogram"}
OtherInstr == {"summary", "nonsense"}
Units == {"1", "s", "By"}
Entities == {"svc", "host", "proc"}
Levels == {"information", "improvement", "violation"}
LRank(l) == CASE l = "information" -> 1 [] l = "improvement" -> 2 [] l = "violation" -> 3 [] l = None -> 0
AllIds == {"missing_attribute", "template_attribute", "deprecated", "not_stable", "type_mismatch", "undefined_enum_variant", "missing_metric", "missing_event",
           "unexpected_instrument", "unit_mismatch", "required_attribute_not_present", "recommended_attribute_not_present", "opt_in_attribute_not_present",
           "conditionally_required_attribute_not_present", "missing_namespace", "invalid_format", "illegal_namespace", "extends_namespace",
           "entity_required_attribute_not_present", "entity_recommended_attribute_not_present", "entity_association_not_satisfied"}
SignalTypes == {"span", "metric", "log", "resource", "profile"}

VARIABLES pc,
  rattrs,    \* name -> [ty, dep, stab]
  mets,      \* metric name -> [instr, unit, dep, stab, attrs, assoc]
  evts,      \* event name -> [dep, stab, attrs, assoc]
  ents,      \* entity -> attrs (sequence of [n, rl])
  cfg,       \* [over, filt, fail, stats, rego]
  todo,      \* samples still to be ingested
  cur,       \* resource last seen: sequence of attributes (<<>> when none)
  report,    \* entity results so far
  stats      \* running statistics
vars == <<pc, rattrs, mets, evts, ents, cfg, todo, cur, report, stats>>

(* ------------------------------ findings ------------------------------ *)
F(id, level, key, x) == [id |-> id, level |-> level, key |-> key, x |-> x]
If(c, f) == IF c THEN <<f>> ELSE <<>>

Exact(n) == n \in DOMAIN rattrs /\ rattrs[n].ty.c # "t"
Templates(n) == {t \in DOMAIN rattrs : rattrs[t].ty.c = "t" /\ IsPrefix(t, n)}
\* the registry attribute that decides for a sample attribute: exact, else the longest template
Home(n) == IF Exact(n) THEN n
           ELSE IF Templates(n) = {} THEN <<>> ELSE CHOOSE t \in Templates(n) : \A u \in Templates(n) : Len(u) <= Len(t)
Known(n) == Home(n) # <<>>
IsTemplate(n) == Known(n) /\ rattrs[Home(n)].ty.c = "t"

Ty(a) == IF a.t # "infer" THEN a.t ELSE ValType[a.v]
Compatible(got, want) == \/ got = want \/ want = "any" \/ got = "any" \/ (got = "int" /\ want = "double") \/ (got = "int[]" /\ want = "double[]")
Documented(ty, v, t) == (t = "string" /\ ty.t = "string" /\ v = "s1") \/ (t = "int" /\ ty.t = "int" /\ v = "i1")

ProperPrefixes(n) == {SubSeq(n, 1, i) : i \in 1..(Len(n) - 1)}
Namespaces == UNION {ProperPrefixes(n) : n \in {m \in DOMAIN rattrs : rattrs[m].ty.c # "t"}}
BadSeg(n) == \E i \in 1..Len(n) : n[i] \in {"Bad", "Zed"}
\* the findings of the built-in advice policies
RegoAttr(n) == IF ~cfg.rego THEN <<>> ELSE
  LET ill == {p \in ProperPrefixes(n) : p \in DOMAIN rattrs /\ rattrs[p].ty.c # "t" /\ rattrs[p].dep = None}
      ext == ProperPrefixes(n) \cap Namespaces
      tmpl == Templates(n) # {} IN
  If(Len(n) = 1, F("missing_namespace", "improvement", n, <<>>))
  \o If(~tmpl /\ BadSeg(n), F("invalid_format", "violation", n, <<>>))
  \o SetToSeq({F("illegal_namespace", "violation", n, p) : p \in ill})
  \o If(Len(n) > 1 /\ ~tmpl /\ ~Exact(n) /\ ext # {},
        F("extends_namespace", "information", n, CHOOSE p \in ext : \A q \in ext : Len(q) <= Len(p)))

AttrFindings(a) ==
  LET n == a.n  t == Ty(a) IN
  (IF ~Known(n) THEN <<F("missing_attribute", "violation", n, <<>>)>> ELSE
   LET r == rattrs[Home(n)] IN
   If(IsTemplate(n), F("template_attribute", "information", n, Home(n)))
   \o If(r.dep # None, F("deprecated", "violation", n, <<r.dep>>))
   \o If(r.stab # "stable", F("not_stable", "improvement", n, <<r.stab>>))
   \o If(t # None /\ (IF r.ty.c = "e" THEN t \notin {"string", "int"} ELSE ~Compatible(t, r.ty.t)), F("type_mismatch", "violation", n, <<t>>))
   \o If(r.ty.c = "e" /\ a.v \notin {"none", "null"} /\ t \in {"string", "int"} /\ ~Documented(r.ty, a.v, t), F("undefined_enum_variant", "information", n, <<>>)))
  \o RegoAttr(n)

\* attributes of a definition that are not there
RLevel(rl) == CASE rl = "required" -> "violation" [] rl \in {"recommended", "recommended_if"} -> "improvement" [] OTHER -> "information"
RId(rl) == CASE rl = "required" -> "required" [] rl \in {"recommended", "recommended_if"} -> "recommended"
             [] rl \in {"opt_in", "opt_in_if"} -> "opt_in" [] OTHER -> "conditionally_required"
Present(n, as) == \E i \in 1..Len(as) : IF n \in DOMAIN rattrs /\ rattrs[n].ty.c = "t" THEN IsPrefix(n, as[i].n) ELSE as[i].n = n
Lacking(defs, as) == FoldLeft(LAMBDA acc, d : acc \o If(~Present(d.n, as), F(RId(d.rl) \o "_attribute_not_present", RLevel(d.rl), d.n, <<>>)), <<>>, defs)

(* --------------------------- entity associations ----------------------- *)
HasName(n, as) == \E i \in 1..Len(as) : as[i].n = n
EntityLacking(e, as) == FoldLeft(LAMBDA acc, d : acc \o If(~HasName(d.n, as),
     F("entity_" \o RId(d.rl) \o "_attribute_not_present", RLevel(d.rl), d.n, <<e>>)), <<>>, ents[e])
RECURSIVE Leaves(_), Eval(_, _)
Leaves(x) == IF x.op = "ref" THEN <<x.e>> ELSE FoldLeft(LAMBDA acc, y : acc \o Leaves(y), <<>>, x.l)
Dedup(s) == FoldLeft(LAMBDA acc, e : IF \E i \in 1..Len(acc) : acc[i] = e THEN acc ELSE Append(acc, e), <<>>, s)
Eval(x, as) ==
  CASE x.op = "ref" -> LET f == EntityLacking(x.e, as) IN [ok |-> \A i \in 1..Len(f) : f[i].level # "violation", f |-> f]
    [] x.op = "all_of" -> LET r == [i \in 1..Len(x.l) |-> Eval(x.l[i], as)] IN
         [ok |-> \A i \in 1..Len(r) : r[i].ok, f |-> FoldLeft(LAMBDA acc, y : acc \o y.f, <<>>, r)]
    [] x.op = "one_of" -> LET r == [i \in 1..Len(x.l) |-> Eval(x.l[i], as)] IN
         IF \E i \in 1..Len(r) : r[i].ok THEN [ok |-> TRUE, f |-> FoldLeft(LAMBDA acc, y : IF y.ok THEN acc \o y.f ELSE acc, <<>>, r)]
         ELSE [ok |-> FALSE, f |-> <<F("entity_association_not_satisfied", "violation", <<>>, Dedup(Leaves(x)))>>]
AssocFindings(as, res) == IF as = <<>> THEN <<>> ELSE IF Len(as) = 1 THEN Eval(as[1], res).f ELSE Eval([op |-> "one_of", l |-> as], res).f
\* the meaning of an association: is it satisfied?
RECURSIVE Sat(_, _)
Sat(x, as) == CASE x.op = "ref" -> \A i \in 1..Len(ents[x.e]) : ents[x.e][i].rl = "required" => HasName(ents[x.e][i].n, as)
                [] x.op = "all_of" -> \A i \in 1..Len(x.l) : Sat(x.l[i], as)
                [] x.op = "one_of" -> \E i \in 1..Len(x.l) : Sat(x.l[i], as)

(* -------------------- overrides and filters (L05) ---------------------- *)
\* a glob is [p: segments, star: BOOLEAN]: p, or p.* (p = <<>>: *)
GlobMatch(g, name) == IF g.star THEN IsPrefix(g.p, name) /\ (g.p = <<>> \/ Len(name) > Len(g.p)) ELSE g.p = name
Named(e) == e.named
AnyGlob(gs, e) == e.named /\ \E i \in 1..Len(gs) : GlobMatch(gs[i], e.name)
InScope(r, e) == (r.st = None \/ r.st = e.st) /\ (r.names = <<>> \/ AnyGlob(r.names, e))
Relevel(f, e) == LET m == {i \in 1..Len(cfg.over) : InScope(cfg.over[i], e) /\ (cfg.over[i].ids = {} \/ f.id \in cfg.over[i].ids)} IN
  IF m = {} THEN f ELSE [f EXCEPT !.level = cfg.over[Min(m)].level]
Dropped(f, e) == \E i \in 1..Len(cfg.filt) : LET r == cfg.filt[i] IN
  InScope(r, e) /\ (f.id \in r.ids \/ (r.min # None /\ LRank(f.level) < LRank(r.min)) \/ AnyGlob(r.ex, e))
Modify(fs, e) == SelectSeq([i \in 1..Len(fs) |-> Relevel(fs[i], e)], LAMBDA f : ~Dropped(f, e))

(* ---------------------------- one sample ------------------------------- *)
\* An entity of the report: type, name, whether it has a name, signal type and name of the whole sample, findings, and what it counts for.
Ent(type, name, named, sg, fs, cov) ==
  LET e == [type |-> type, name |-> name, named |-> named, st |-> sg.st, sn |-> sg.sn, cov |-> cov] IN
  [e |-> e, raw |-> fs, f |-> Modify(fs, e)]
CovAttr(n) == IF Known(n) THEN Home(n) ELSE n
AttrEnt(a, sg) == Ent("attribute", a.n, TRUE, sg, AttrFindings(a), CovAttr(a.n))
AttrEnts(as, sg) == [i \in 1..Len(as) |-> AttrEnt(as[i], sg)]
Plain(type, name, named, sg, as) == <<Ent(type, name, named, sg, <<>>, <<>>)>> \o AttrEnts(as, sg)
Cat(f(_), s) == FoldLeft(LAMBDA acc, x : acc \o f(x), <<>>, s)

MetricFindings(s) == IF s.name \notin DOMAIN mets THEN <<F("missing_metric", "violation", <<>>, <<>>)>> ELSE
  LET m == mets[s.name] IN
  If(m.dep # None, F("deprecated", "violation", <<>>, <<m.dep>>)) \o If(m.stab # "stable", F("not_stable", "improvement", <<>>, <<m.stab>>))
  \o If(s.instr # m.instr, F("unexpected_instrument", "violation", <<>>, <<>>)) \o If(s.unit # m.unit, F("unit_mismatch", "violation", <<>>, <<>>))
RegoMetric(n) == If(cfg.rego /\ BadSeg(n), F("invalid_format", "violation", <<>>, <<>>))
EventFindings(s) == IF s.name = <<>> THEN <<>> ELSE IF s.name \notin DOMAIN evts THEN <<F("missing_event", "violation", <<>>, <<>>)>> ELSE
  LET m == evts[s.name] IN
  If(m.dep # None, F("deprecated", "violation", <<>>, <<m.dep>>)) \o If(m.stab # "stable", F("not_stable", "improvement", <<>>, <<m.stab>>))
  \o Lacking(m.attrs, s.attrs)

Check(s, res) ==
  LET sg == [st |-> IF s.k \in SignalTypes THEN s.k ELSE None, sn |-> IF s.k \in {"span", "metric", "log"} THEN s.name ELSE <<>>] IN
  CASE s.k = "attribute" -> AttrEnts(s.attrs, sg)
    [] s.k \in {"resource", "profile"} -> Plain(s.k, <<>>, FALSE, sg, s.attrs)
    [] s.k = "instrumentation_scope" -> Plain(s.k, s.name, TRUE, sg, s.attrs)
    [] s.k = "span_event" -> Plain(s.k, s.name, TRUE, sg, s.attrs)
    [] s.k = "span_link" -> Plain(s.k, <<>>, FALSE, sg, s.attrs)
    [] s.k = "span" -> Plain("span", s.name, TRUE, sg, s.attrs)
         \o Cat(LAMBDA e : Plain("span_event", e.name, TRUE, sg, e.attrs), s.events)
         \o Cat(LAMBDA as : Plain("span_link", <<>>, FALSE, sg, as), s.links)
    [] s.k = "log" -> <<Ent("log", s.name, TRUE, sg, EventFindings(s)
                         \o (IF s.name \in DOMAIN evts THEN AssocFindings(evts[s.name].assoc, res) ELSE <<>>), s.name)>> \o AttrEnts(s.attrs, sg)
    [] s.k = "metric" -> <<Ent("metric", s.name, TRUE, sg, MetricFindings(s) \o RegoMetric(s.name)
                            \o (IF s.name \in DOMAIN mets THEN AssocFindings(mets[s.name].assoc, res) ELSE <<>>), s.name)>>
         \o Cat(LAMBDA d : <<Ent("data_point", <<>>, FALSE, sg, IF s.name \in DOMAIN mets THEN Lacking(mets[s.name].attrs, d.attrs) ELSE <<>>, <<>>)>>
                           \o AttrEnts(d.attrs, sg) \o Cat(LAMBDA as : Plain("exemplar", <<>>, FALSE, sg, as), d.exemplars), s.points)

(* ------------------------- statistics (L03) ---------------------------- *)
Bump(f, k) == [x \in DOMAIN f \cup {k} |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x = k THEN 1 ELSE 0)]
Highest(fs) == IF fs = <<>> THEN None ELSE CHOOSE l \in Levels : (\E i \in 1..Len(fs) : fs[i].level = l) /\ (\A i \in 1..Len(fs) : LRank(fs[i].level) <= LRank(l))
NoCount == [x \in {} |-> 0]
RegA == {n \in DOMAIN rattrs : rattrs[n].dep = None}
RegM == {n \in DOMAIN mets : mets[n].dep = None}
RegE == {n \in DOMAIN evts : evts[n].dep = None}
Stats0 == [total |-> 0, types |-> NoCount, advisories |-> 0, levels |-> NoCount, highest |-> NoCount, clean |-> 0, ids |-> NoCount,
           attrs |-> NoCount, mets |-> NoCount, evts |-> NoCount]
AddEnt(s, r) ==
  LET h == Highest(r.f) IN
  [total |-> s.total + 1, types |-> Bump(s.types, r.e.type), advisories |-> s.advisories + Len(r.f),
   levels |-> FoldLeft(LAMBDA acc, f : Bump(acc, f.level), s.levels, r.f),
   highest |-> IF h = None THEN s.highest ELSE Bump(s.highest, h),
   clean |-> s.clean + (IF h = None THEN 1 ELSE 0),
   ids |-> FoldLeft(LAMBDA acc, f : Bump(acc, f.id), s.ids, r.f),
   attrs |-> IF r.e.type = "attribute" THEN Bump(s.attrs, r.e.cov) ELSE s.attrs,
   mets |-> IF r.e.type = "metric" THEN Bump(s.mets, r.e.cov) ELSE s.mets,
   evts |-> IF r.e.type = "log" /\ r.e.cov # <<>> THEN Bump(s.evts, r.e.cov) ELSE s.evts]
Seen(counts, reg) == Cardinality(DOMAIN counts \cap reg)
Coverage == [num |-> Seen(stats.attrs, RegA) + Seen(stats.mets, RegM) + Seen(stats.evts, RegE),
             den |-> Cardinality(RegA) + Cardinality(RegM) + Cardinality(RegE)]

FailsAt(fail) == cfg.stats /\ fail # "none" /\ \E l \in DOMAIN stats.levels : stats.levels[l] > 0 /\ LRank(l) >= LRank(fail)
Fails == FailsAt(cfg.fail)

(* ---------------------------- generation ------------------------------- *)
SA == [n : Names \cup OtherNames, v : Vals, t : {"infer"}]
SAT == [n : Names \cup OtherNames, v : Vals, t : Prims]
\* attributes that fit the registry are preferred over arbitrary ones
RAttr(z_) == IF Pct(25) THEN R(SAT) ELSE IF DOMAIN rattrs # {} /\ Pct(60) THEN [R(SA) EXCEPT !.n = R(DOMAIN rattrs)] ELSE R(SA)
RAttrs(k) == TLCEval([i \in 1..k |-> TLCEval(RAttr(0))])
RRes(z_) == LET es == UNION {{ents[e][i].n : i \in 1..Len(ents[e])} : e \in Entities}
            sub == IF es = {} THEN {} ELSE R(SUBSET es)
            sq == TLCEval(SetToSeq(TLCEval(sub))) IN
        TLCEval([i \in 1..Len(sq) |-> [n |-> sq[i], v |-> "s1", t |-> "infer"]]) \o RAttrs(R(0..1))
Num(k) == R(0..k)
RName(good, bad) == IF Pct(75) THEN R(good) ELSE R(bad)
RDef(defs) == \* a data point or event carrying most of the attributes its definition asks for
  LET want == {defs[i].n : i \in 1..Len(defs)}
      sub == IF want = {} THEN {} ELSE R(SUBSET want)
      sq == TLCEval(SetToSeq(TLCEval(sub))) IN
  TLCEval([i \in 1..Len(sq) |-> [n |-> IF Pct(20) THEN Append(sq[i], "k") ELSE sq[i], v |-> R(Vals), t |-> "infer"]]) \o RAttrs(Num(1))
\* the registry metric if there is one of that name, so that samples mostly conform
RMetric(z_) == LET n == TLCEval(RName(Metrics, OtherMetrics))
               m == IF n \in DOMAIN mets THEN mets[n] ELSE [instr |-> "counter", unit |-> "1", attrs |-> <<>>] IN
  [k |-> "metric", name |-> n, instr |-> IF Pct(70) THEN m.instr ELSE R(Instr \cup OtherInstr), unit |-> IF Pct(70) THEN m.unit ELSE R(Units),
   ptype |-> R({"number", "histogram"}),
   points |-> TLCEval([i \in 1..Num(2) |-> [attrs |-> TLCEval(RDef(m.attrs)), exemplars |-> TLCEval([j \in 1..Num(1) |-> RAttrs(Num(2))])]])]
RLog(z_) == LET n == TLCEval(RName(Events, OtherEvents)) IN
  [k |-> "log", name |-> n, attrs |-> RDef(IF n \in DOMAIN evts THEN evts[n].attrs ELSE <<>>)]
RSpan(z_) == [k |-> "span", name |-> <<"sp", "one">>, attrs |-> RAttrs(Num(2)),
          events |-> TLCEval([i \in 1..Num(2) |-> [name |-> <<"ev">>, attrs |-> RAttrs(Num(2))]]), links |-> TLCEval([i \in 1..Num(1) |-> RAttrs(Num(2))])]
ROther(z_) == LET k == R({"resource", "profile", "instrumentation_scope", "span_event", "span_link"}) IN
          [k |-> k, name |-> IF k = "instrumentation_scope" THEN <<"sc">> ELSE <<"ev", "x">>, attrs |-> RAttrs(Num(2))]
RSample(z_) == LET d == R(1..100) IN
  CASE Mode = "attr" /\ d <= 70 -> [k |-> "attribute", attrs |-> RAttrs(1)]
    [] Mode = "entity" /\ d <= 35 -> [k |-> "resource", attrs |-> RRes(0)]
    [] Mode = "entity" /\ d <= 70 -> RMetric(0)
    [] Mode = "entity" -> RLog(0)
    [] Mode = "signal" /\ d <= 50 -> RMetric(0)
    [] Mode = "signal" /\ d <= 85 -> RLog(0)
    [] OTHER -> LET e == R(1..6) IN CASE e = 1 -> [k |-> "attribute", attrs |-> RAttrs(1)] [] e = 2 -> RMetric(0) [] e = 3 -> RLog(0) [] e = 4 -> RSpan(0)
                       [] e = 5 -> [k |-> "resource", attrs |-> RRes(0)] [] OTHER -> ROther(0)

RRegAttr(z_) == [ty |-> IF Pct(45) THEN R({t \in Types : t.c = "p"}) ELSE IF Pct(60) THEN R({t \in Types : t.c = "t"}) ELSE R({t \in Types : t.c = "e"}),
             dep |-> IF Pct(70) THEN None ELSE R(Deps), stab |-> IF Pct(65) THEN "stable" ELSE R(Stabs)]
RDefs(pool, max) == LET c == TLCEval(R({s \in SUBSET pool : Cardinality(s) <= max})) sq == TLCEval(SetToSeq(c)) IN
  TLCEval([i \in 1..Len(sq) |-> [n |-> sq[i], rl |-> R(ReqLevels)]])
RECURSIVE RAssoc(_)
RAssoc(d) == IF d = 0 \/ Pct(45) THEN [op |-> "ref", e |-> R(Entities)]
             ELSE [op |-> R({"one_of", "all_of"}), l |-> TLCEval([i \in 1..R(1..3) |-> RAssoc(d - 1)])]
RAssocs(z_) == IF (Mode = "entity" /\ Pct(85)) \/ Pct(25) THEN TLCEval([i \in 1..R({1, 1, 2, 3}) |-> RAssoc(2)]) ELSE <<>>
GlobNames == Names \cup OtherNames \cup Metrics \cup Events \cup { <<"sp", "one">>, <<"ev">>, <<"sc">>, <<"a">>, <<"m">> }
RGlob(z_) == IF Pct(10) THEN [p |-> <<>>, star |-> TRUE] ELSE IF Pct(50) THEN [p |-> R({<<"a">>, <<"b">>, <<"b", "t">>, <<"c">>, <<"m">>, <<"e">>, <<"sp">>}), star |-> TRUE]
         ELSE [p |-> R(GlobNames), star |-> FALSE]
RGlobs(p) == IF Pct(p) THEN TLCEval([i \in 1..R(1..2) |-> TLCEval(RGlob(0))]) ELSE <<>>
RIds(p) == IF Pct(p) THEN TLCEval({R(AllIds) : i \in 1..R(1..3)}) ELSE {}
RSt(p) == IF Pct(p) THEN R(SignalTypes) ELSE None
ROver(z_) == [ids |-> IF Pct(30) THEN {} ELSE TLCEval(RIds(100)), st |-> RSt(35), names |-> RGlobs(35), level |-> R(Levels)]
RFilt(z_) == [ids |-> RIds(60), min |-> IF Pct(35) THEN R(Levels) ELSE None, st |-> RSt(35), names |-> RGlobs(35), ex |-> RGlobs(35)]
RCfg(z_) == [over |-> IF Mode = "mod" \/ (Mode \in {"stats", "exit"} /\ Pct(30)) THEN TLCEval([i \in 1..R(0..3) |-> TLCEval(ROver(0))]) ELSE <<>>,
         filt |-> IF Mode = "mod" \/ (Mode \in {"stats", "exit"} /\ Pct(30)) THEN TLCEval([i \in 1..R(0..2) |-> TLCEval(RFilt(0))]) ELSE <<>>,
         fail |-> R({"none", "information", "improvement", "violation"}), stats |-> Pct(85), rego |-> Pct(50)]

Init == /\ pc = "attrs" /\ rattrs = [n \in {} |-> 0] /\ mets = [n \in {} |-> 0] /\ evts = [n \in {} |-> 0] /\ ents = [e \in {} |-> 0]
        /\ cfg = None /\ todo = NSamples /\ cur = <<>> /\ report = <<>> /\ stats = Stats0

\* ---- random generation
GenReg == /\ Random /\ pc = "attrs" /\ pc' = "sigs"
  /\ LET chosen == TLCEval(R({s \in SUBSET Names : Cardinality(s) \in 3..7})) IN
     rattrs' = TLCEval([n \in chosen |-> TLCEval(RRegAttr(0))])
  /\ UNCHANGED <<mets, evts, ents, cfg, todo, cur, report, stats>>
GenSigs == /\ Random /\ pc = "sigs" /\ pc' = "run"
  /\ LET plain == {n \in DOMAIN rattrs : rattrs[n].ty.c # "t"} IN
     /\ ents' = TLCEval([e \in Entities |-> TLCEval(RDefs(plain, 3))])
     /\ mets' = TLCEval([n \in R({{}, Metrics, Metrics, { <<"m", "one">> }}) |->
                 TLCEval([instr |-> R(Instr), unit |-> R(Units), dep |-> IF Pct(70) THEN None ELSE R(Deps), stab |-> IF Pct(60) THEN "stable" ELSE R(Stabs),
                  attrs |-> TLCEval(RDefs(DOMAIN rattrs, 4)), assoc |-> TLCEval(RAssocs(0))])])
     /\ evts' = TLCEval([n \in R({{}, Events, Events, { <<"e", "one">> }}) |->
                 TLCEval([dep |-> IF Pct(70) THEN None ELSE R(Deps), stab |-> IF Pct(60) THEN "stable" ELSE R(Stabs),
                  attrs |-> TLCEval(RDefs(DOMAIN rattrs, 4)), assoc |-> TLCEval(RAssocs(0))])])
     /\ cfg' = TLCEval(RCfg(0))
     /\ todo' = NSamples
  /\ UNCHANGED <<rattrs, cur, report, stats>>

\* ---- exhaustive generation over small pools
SmallTypes == {[c |-> "p", t |-> "string"], [c |-> "t", t |-> "int"], [c |-> "e", t |-> "string"]}
SmallNames == { <<"b", "t">>, <<"b", "t", "u">> }
SmallReg == {[ty |-> t, dep |-> d, stab |-> IF d = None THEN "stable" ELSE "beta"] : t \in SmallTypes, d \in {None, "renamed"}}
SmallCfg == [over : {<<>>, <<[ids |-> {"missing_attribute"}, st |-> None, names |-> <<>>, level |-> "information"], [ids |-> {}, st |-> "metric", names |-> <<>>, level |-> "improvement"]>>},
             filt : {<<>>, <<[ids |-> {"template_attribute"}, min |-> "improvement", st |-> None, names |-> <<>>, ex |-> <<>>]>>},
             fail : {"improvement"}, stats : {TRUE}, rego : {FALSE}]
SmallAttrs == {[n |-> n, v |-> v, t |-> "infer"] : n \in { <<"b", "t">>, <<"b", "t", "u", "k">>, <<"z">> }, v \in {"s1", "i1"}}
SmallSamples == {[k |-> "attribute", attrs |-> <<a>>] : a \in SmallAttrs}
  \cup {[k |-> "resource", attrs |-> <<[n |-> <<"b", "t">>, v |-> "s1", t |-> "infer"]>>], [k |-> "resource", attrs |-> <<>>]}
  \cup {[k |-> "metric", name |-> n, instr |-> "counter", unit |-> u, ptype |-> "number", points |-> <<[attrs |-> as, exemplars |-> <<>>]>>]
          : n \in {<<"m", "one">>, <<"m", "three">>}, u \in {"1", "s"}, as \in {<<>>, <<[n |-> <<"b", "t">>, v |-> "s1", t |-> "infer"]>>}}
SmallAssoc == LET r(e) == [op |-> "ref", e |-> e] IN
  {<<>>, <<r("svc")>>, <<r("svc"), r("host")>>, <<[op |-> "all_of", l |-> <<r("svc"), r("host")>>]>>,
   <<[op |-> "one_of", l |-> <<[op |-> "all_of", l |-> <<r("svc"), r("host")>>], r("proc")>>]>>}
AllReg == /\ ~Random /\ pc = "attrs" /\ pc' = "sigs"
  /\ \E s \in SUBSET SmallNames : rattrs' \in [s -> SmallReg]
  /\ UNCHANGED <<mets, evts, ents, cfg, todo, cur, report, stats>>
AllSigs == /\ ~Random /\ pc = "sigs" /\ pc' = "run"
  /\ ents' = [svc |-> <<[n |-> <<"b", "t">>, rl |-> "required"]>>, host |-> <<[n |-> <<"b", "t", "u">>, rl |-> "required"]>>, proc |-> <<[n |-> <<"z">>, rl |-> "opt_in"]>>]
  /\ \E as \in SmallAssoc, rl \in {"required", "opt_in"} :
       mets' = [n \in { <<"m", "one">> } |-> [instr |-> "counter", unit |-> "1", dep |-> None, stab |-> "stable", attrs |-> <<[n |-> <<"b", "t">>, rl |-> rl]>>, assoc |-> as]]
  /\ cfg' \in SmallCfg
  /\ UNCHANGED <<rattrs, evts, todo, cur, report, stats>>

\* ---- ingestion of one sample
Ingest(s) ==
  LET res == IF s.k = "resource" THEN s.attrs ELSE cur
      r == TLCEval(Check(s, res)) IN
  /\ report' = Append(report, [s |-> s, r |-> r])
  /\ stats' = TLCEval(FoldLeft(AddEnt, stats, r))
  /\ cur' = res /\ todo' = todo - 1 /\ UNCHANGED <<pc, rattrs, mets, evts, ents, cfg>>
Step == /\ pc = "run" /\ todo > 0
        /\ IF Random THEN Ingest(TLCEval(RSample(0))) ELSE \E s \in SmallSamples : Ingest(s)
End == pc = "run" /\ todo = 0 /\ pc' = "done" /\ UNCHANGED <<rattrs, mets, evts, ents, cfg, todo, cur, report, stats>>

Pairs(f) == SetToSeq({<<k, f[k]>> : k \in DOMAIN f})
Case == [reg |-> [attrs |-> Pairs(rattrs), mets |-> Pairs(mets), evts |-> Pairs(evts), ents |-> Pairs(ents)], cfg |-> cfg,
         samples |-> [i \in 1..Len(report) |-> report[i].s],
         results |-> [i \in 1..Len(report) |-> [j \in 1..Len(report[i].r) |-> [e |-> report[i].r[j].e, f |-> report[i].r[j].f, raw |-> report[i].r[j].raw]]],
         stats |-> [total |-> stats.total, types |-> Pairs(stats.types), advisories |-> stats.advisories, levels |-> Pairs(stats.levels), highest |-> Pairs(stats.highest),
                    clean |-> stats.clean, ids |-> Pairs(stats.ids), attrs |-> Pairs(stats.attrs), mets |-> Pairs(stats.mets), evts |-> Pairs(stats.evts),
                    regA |-> SetToSeq(RegA), regM |-> SetToSeq(RegM), regE |-> SetToSeq(RegE), cov |-> Coverage],
         fails |-> Fails]
Emit == pc = "done" /\ Random /\ PrintT("@@" \o ToJson(Case)) /\ pc' = "end" /\ UNCHANGED <<rattrs, mets, evts, ents, cfg, todo, cur, report, stats>>

Next == GenReg \/ GenSigs \/ AllReg \/ AllSigs \/ Step \/ End \/ Emit
Spec == Init /\ [][Next]_vars

(* ------------------------- what is checked ----------------------------- *)
AllEnts == FoldLeft(LAMBDA acc, x : acc \o x.r, <<>>, report)
Recount == FoldLeft(AddEnt, Stats0, AllEnts)
CountBy(P(_)) == Cardinality({i \in 1..Len(AllEnts) : P(AllEnts[i])})
\* L03: the running statistics are a recount of the report, whatever the order in which the samples came.
StatsAgree == pc = "done" =>
  /\ stats = Recount /\ stats = FoldRight(LAMBDA r, acc : AddEnt(acc, r), AllEnts, Stats0)
  /\ stats.total = Len(AllEnts)
  /\ stats.clean = CountBy(LAMBDA r : r.f = <<>>)
  /\ stats.clean + FoldFunction(LAMBDA a, b : a + b, 0, stats.highest) = stats.total
  /\ FoldFunction(LAMBDA a, b : a + b, 0, stats.levels) = stats.advisories
  /\ FoldFunction(LAMBDA a, b : a + b, 0, stats.ids) = stats.advisories
  /\ Coverage.num <= Coverage.den
\* L04: the exit code says whether a reported finding reaches the level.
FailsAgree == pc = "done" => \A fail \in Levels \cup {"none"} : FailsAt(fail) <=> (cfg.stats /\ fail # "none" /\
  \E i \in 1..Len(AllEnts) : \E j \in 1..Len(AllEnts[i].f) : LRank(AllEnts[i].f[j].level) >= LRank(fail))
\* L01: longest template decides, an exact definition wins, conforming attributes get nothing.
AttrSound == pc = "done" => \A i \in 1..Len(AllEnts) : LET r == AllEnts[i] IN r.e.type = "attribute" =>
  LET n == r.e.name  has(id) == \E j \in 1..Len(r.raw) : r.raw[j].id = id IN
  /\ has("missing_attribute") <=> (n \notin DOMAIN rattrs /\ Templates(n) = {})
  /\ has("template_attribute") <=> (~Exact(n) /\ Templates(n) # {})
  /\ has("template_attribute") => \A t \in Templates(n) : Len(t) <= Len(r.e.cov)
  /\ has("missing_attribute") => ~has("template_attribute") /\ ~has("deprecated") /\ ~has("not_stable") /\ ~has("type_mismatch")
\* L05: filters only remove findings, overrides only change levels, and without configuration nothing changes.
ModSound == pc = "done" => \A i \in 1..Len(AllEnts) : LET r == AllEnts[i] IN
  /\ Len(r.f) <= Len(r.raw)
  /\ cfg.over = <<>> /\ cfg.filt = <<>> => r.f = r.raw
  /\ cfg.over = <<>> => \A j \in 1..Len(r.f) : \E k \in 1..Len(r.raw) : r.raw[k] = r.f[j]
  /\ cfg.filt = <<>> => Len(r.f) = Len(r.raw) /\ \A j \in 1..Len(r.f) : r.f[j].id = r.raw[j].id
\* L06: a violation is reported for an association exactly when it is not satisfied by the resource of the sample.
ResAt(i) == LET p == {j \in 1..i : report[j].s.k = "resource"} IN IF p = {} THEN <<>> ELSE report[Max(p)].s.attrs
AssocSound == pc = "done" => \A i \in 1..Len(report) : LET s == report[i].s IN
  s.k \in {"metric", "log"} =>
    LET d == IF s.k = "metric" THEN mets ELSE evts
        as == IF s.name \in DOMAIN d THEN d[s.name].assoc ELSE <<>>
        bad == \E j \in 1..Len(report[i].r[1].raw) : LET f == report[i].r[1].raw[j] IN
                 f.level = "violation" /\ f.id \in {"entity_required_attribute_not_present", "entity_association_not_satisfied"} IN
    bad <=> (as # <<>> /\ \A k \in 1..Len(as) : ~Sat(as[k], ResAt(i)))
=============================================================================
