------------------------------ MODULE Unique -------------------------------
(***************************************************************************)
(* Duplicate identifiers in a registry (R04).                              *)
(*                                                                         *)
(* State: declarations (version 1 groups, version 2 signals, refinements,  *)
(* attribute groups and definition files) that are registered one after    *)
(* the other, in any order, in indexes by group id, metric name, signal    *)
(* name, attribute id and version 2 id.  At the end each index entry with  *)
(* more than one declaration is reported.                                  *)
(*                                                                         *)
(* Ids are sequences of segments: <<"metric","x">> is metric.x.            *)
(* Checked: the report is the set of clashing pairs (ReportExact), the     *)
(* order does not matter, and without a report no definition replaces      *)
(* another one in the version 2 form (NothingLost).                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS Random, N, Files
None == "-"
R(S) == RandomElement(S)
Pct(p) == R(1..100) <= p

Fam == {"span", "metric", "event", "entity"}
\* forms: v1 group, v2 definition, v2 refinement, internal v2 attribute group, v2 attribute file
Bases == {"x", "y"}
AttrIds == {"a.one", "a.two"}

VARIABLES pc, decl, done, byId, byMetric, byName, byAttr, byV2
vars == <<pc, decl, done, byId, byMetric, byName, byAttr, byV2>>

(* ------------------------------ identities ----------------------------- *)
Type(d) == IF d.form \in {"ag2", "defs2"} THEN "attribute_group" ELSE d.type
RawId(i) == LET d == decl[i] IN
  CASE d.form = "v1" -> d.id [] d.form = "v2" -> <<d.type>> \o d.id [] d.form = "ref2" -> d.id [] d.form = "ag2" -> d.id [] d.form = "defs2" -> <<"registry", d.file>>
Strip(p, id) == IF Len(id) > 1 /\ id[1] = p THEN Tail(id) ELSE id
Internal(i) == decl[i].form = "ag2" /\ decl[i].internal
\* a declaration that extends one of its own type is a refinement of it
Refines(i) == decl[i].ext # 0 /\ Type(decl[decl[i].ext]) = Type(decl[i])
NameOf(i) == LET d == decl[i] IN
  CASE d.form = "v1" /\ d.type # "metric" -> d.name [] d.form = "v2" /\ d.type \in {"span", "event", "entity"} -> d.id [] OTHER -> <<>>
MetricOf(i) == LET d == decl[i] IN IF d.type # "metric" THEN <<>> ELSE IF d.form = "v1" THEN d.name ELSE IF d.form = "v2" THEN d.id ELSE <<>>
V2Id(i) == LET d == decl[i] t == Type(d) IN
  CASE t \in {"span", "attribute_group"} -> Strip(t, RawId(i))
    [] Refines(i) -> Strip(t, RawId(i))
    [] t = "metric" -> MetricOf(i)
    [] t = "event" -> NameOf(i)
    [] OTHER -> IF NameOf(i) # <<>> THEN NameOf(i) ELSE Strip("entity", RawId(i))

(* ------------------------------ declarative ---------------------------- *)
D == DOMAIN decl
Groups(P(_), key(_)) == {{i \in D : P(i) /\ key(i) = k} : k \in {key(i) : i \in {j \in D : P(j)}}}
Many(S) == {s \in S : Cardinality(s) > 1}
Out(i) == ~Internal(i)
DupId == Many(Groups(LAMBDA i : TRUE, RawId))
DupMetric == Many(Groups(LAMBDA i : Out(i) /\ MetricOf(i) # <<>>, MetricOf))
DupName == Many(Groups(LAMBDA i : Out(i) /\ NameOf(i) # <<>>, NameOf))
Defines(i, a) == Type(decl[i]) = "attribute_group" /\ decl[i].form \in {"v1", "defs2"} /\ a \in decl[i].defs
DupAttr == {a \in AttrIds : Cardinality({i \in D : Defines(i, a)}) > 1}
Collide == {s \in Many(Groups(Out, LAMBDA i : <<Type(decl[i]), V2Id(i)>>)) : Cardinality({RawId(i) : i \in s}) > 1}

(* ------------------------------ generation ----------------------------- *)
V1Ids(t) == {<<b>> : b \in Bases} \cup {<<t, b>> : b \in Bases} \cup {<<t, t, b>> : b \in Bases} \cup {<<"z", b>> : b \in Bases}
RefIds(t) == {<<b>> : b \in Bases} \cup {<<"r">>, <<t, "r">>} \cup {<<t, t, b>> : b \in Bases}
AgIds == {<<b>> : b \in Bases} \cup {<<"attribute_group", b>> : b \in Bases}
V1Names(t) == IF t \in {"metric", "event"} THEN {<<b>> : b \in Bases} ELSE IF t = "attribute_group" THEN {<<>>} ELSE {<<>>} \cup {<<b>> : b \in Bases}
Mk(form, type, id, name, defs, ext, internal, file) == [form |-> form, type |-> type, id |-> id, name |-> name, defs |-> defs, ext |-> ext, internal |-> internal, file |-> file]
\* what can be extended: definitions of the form <type>.<base> that extend nothing, so that a duplicated target has one type
Targets(ts) == {i \in D : decl[i].ext = 0 /\ Type(decl[i]) \in ts /\ Len(RawId(i)) = 2 /\ RawId(i)[1] = Type(decl[i]) /\ RawId(i)[2] \in Bases}
SameTypeTarget(t) == Targets({t})
AllDecls == (UNION {{Mk("v1", t, id, n, {}, 0, FALSE, f) : id \in V1Ids(t), n \in V1Names(t), f \in Files} : t \in Fam})
  \cup {Mk("v1", "attribute_group", id, <<>>, ds, 0, FALSE, f) : id \in AgIds, ds \in SUBSET AttrIds, f \in Files}
  \cup {Mk("v2", t, <<b>>, <<>>, {}, 0, FALSE, f) : t \in Fam, b \in Bases, f \in Files}
  \cup {Mk("ag2", "attribute_group", id, <<>>, {}, 0, i, f) : id \in AgIds, i \in BOOLEAN, f \in Files}
  \cup {Mk("defs2", "attribute_group", <<>>, <<>>, ds, 0, FALSE, f) : ds \in (SUBSET AttrIds) \ {{}}, f \in Files}
ExtDecls == UNION {{Mk("ref2", t, id, <<>>, {}, e, FALSE, f) : id \in RefIds(t), e \in Targets({t}), f \in Files} : t \in Fam}
  \cup UNION {{Mk("v1", t, id, n, {}, e, FALSE, f) : id \in {<<b>> : b \in Bases} \cup {<<"z", b>> : b \in Bases} \cup {<<t, t, b>> : b \in Bases}, n \in V1Names(t), e \in Targets(Fam), f \in Files} : t \in Fam}
\* one attribute file per name
Fits(d) == d.form = "defs2" => \A i \in D : decl[i].form = "defs2" => decl[i].file # d.file

NoIdx == [k \in {} |-> {}]
Init == pc = "declare" /\ decl = <<>> /\ done = {} /\ byId = NoIdx /\ byMetric = NoIdx /\ byName = NoIdx /\ byAttr = NoIdx /\ byV2 = NoIdx
RDecl(z_) == LET form == R(1..100) IN
  IF form <= 30 /\ ExtDecls # {} THEN R(ExtDecls)
  ELSE LET f == R({"v1", "v1", "v2", "ag2", "defs2"}) t == R(Fam) IN R({d \in AllDecls : d.form = f /\ (f \in {"v2"} => d.type = t)})
DeclareR == /\ Random /\ pc = "declare" /\ Len(decl) < N
  /\ \E d \in {RDecl(0)} : decl' = (IF Fits(d) THEN Append(decl, d) ELSE decl)
  /\ UNCHANGED <<pc, done, byId, byMetric, byName, byAttr, byV2>>
DeclareA == /\ ~Random /\ pc = "declare" /\ Len(decl) < N
  /\ \E d \in AllDecls \cup ExtDecls : Fits(d) /\ decl' = Append(decl, d)
  /\ UNCHANGED <<pc, done, byId, byMetric, byName, byAttr, byV2>>
Start == pc = "declare" /\ Len(decl) = N /\ pc' = "register" /\ UNCHANGED <<decl, done, byId, byMetric, byName, byAttr, byV2>>

(* -------------------------- the registration --------------------------- *)
Add(f, k, i) == [x \in DOMAIN f \cup {k} |-> (IF x \in DOMAIN f THEN f[x] ELSE {}) \cup (IF x = k THEN {i} ELSE {})]
AddIf(c, f, k, i) == IF c THEN Add(f, k, i) ELSE f
Register(i) ==
  /\ byId' = Add(byId, RawId(i), i)
  /\ byMetric' = AddIf(Out(i) /\ MetricOf(i) # <<>>, byMetric, MetricOf(i), i)
  /\ byName' = AddIf(Out(i) /\ NameOf(i) # <<>>, byName, NameOf(i), i)
  /\ byAttr' = FoldSet(LAMBDA a, acc : AddIf(Defines(i, a), acc, a, i), byAttr, AttrIds)
  /\ byV2' = AddIf(Out(i), byV2, <<Type(decl[i]), V2Id(i)>>, i)
  /\ done' = done \cup {i} /\ UNCHANGED <<pc, decl>>
Reg == pc = "register" /\ IF Random THEN done # D /\ Register(CHOOSE i \in D \ done : TRUE) ELSE \E i \in D \ done : Register(i)
End == pc = "register" /\ done = D /\ pc' = "done" /\ UNCHANGED <<decl, done, byId, byMetric, byName, byAttr, byV2>>

Rep(f) == {f[k] : k \in {k \in DOMAIN f : Cardinality(f[k]) > 1}}
Report == [ids |-> Rep(byId), metrics |-> Rep(byMetric), names |-> Rep(byName), attrs |-> {a \in DOMAIN byAttr : Cardinality(byAttr[a]) > 1},
           v2 |-> {s \in Rep(byV2) : Cardinality({RawId(i) : i \in s}) > 1}]
SetsToSeq(S) == SetToSeq({SetToSeq(s) : s \in S})
KeyOf(s, k(_)) == k(CHOOSE i \in s : TRUE)
Case == [decl |-> decl,
  ids |-> SetToSeq({[key |-> KeyOf(s, RawId), by |-> SetToSeq(s)] : s \in Report.ids}),
  metrics |-> SetToSeq({[key |-> KeyOf(s, MetricOf), by |-> SetToSeq(s)] : s \in Report.metrics}),
  names |-> SetToSeq({[key |-> KeyOf(s, NameOf), by |-> SetToSeq(s)] : s \in Report.names}),
  attrs |-> SetToSeq({[key |-> a, by |-> SetToSeq(byAttr[a])] : a \in Report.attrs}),
  v2 |-> SetToSeq({[key |-> KeyOf(s, V2Id), type |-> Type(decl[CHOOSE i \in s : TRUE]), by |-> SetToSeq(s)] : s \in Report.v2}),
  raw |-> [i \in D |-> RawId(i)], v2id |-> [i \in D |-> V2Id(i)], types |-> [i \in D |-> Type(decl[i])], refines |-> [i \in D |-> Refines(i)]]
Emit == pc = "done" /\ Random /\ PrintT("@@" \o ToJson(Case)) /\ pc' = "end" /\ UNCHANGED <<decl, done, byId, byMetric, byName, byAttr, byV2>>
Next == DeclareR \/ DeclareA \/ Start \/ Reg \/ End \/ Emit
Spec == Init /\ [][Next]_vars

ReportExact == pc = "done" => Report = [ids |-> DupId, metrics |-> DupMetric, names |-> DupName, attrs |-> DupAttr, v2 |-> Collide]
\* Two declarations have one version 2 identity only if a duplicate was reported for them.
NothingLost == pc = "done" => \A i, j \in D : i # j /\ Out(i) /\ Out(j) /\ Type(decl[i]) = Type(decl[j]) /\ V2Id(i) = V2Id(j) =>
   \E s \in Report.ids \cup Report.v2 : {i, j} \subseteq s
\* Declarations that clash nowhere are not named in the report.
OnlyClashes == pc = "done" => \A s \in Report.ids \cup Report.metrics \cup Report.names \cup Report.v2 : \A i \in s : \E j \in s : i # j /\
   (RawId(i) = RawId(j) \/ MetricOf(i) = MetricOf(j) \/ NameOf(i) = NameOf(j) \/ V2Id(i) = V2Id(j))
=============================================================================
