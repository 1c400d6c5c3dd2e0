------------------------------ MODULE Resolve ------------------------------
(***************************************************************************)
(* Resolution of one semantic convention registry (weaver_resolver).       *)
(*                                                                         *)
(* A registry is a set of groups.  A group has a kind (version 1 groups,   *)
(* version 2 attribute groups, signals, refinements and definition files), *)
(* may extend one group, include attribute groups, and declares attributes *)
(* either by definition ("id") or by reference ("ref"), each with a set of *)
(* fields it sets itself.  Values are abstracted to *who set them*: the    *)
(* value of a field is the name of the group that set it, or "-" (default).*)
(*                                                                         *)
(* Two descriptions of resolution are given and compared by TLC:           *)
(*  - declarative: Eff/Final/Errors, the meaning a user relies on;         *)
(*  - operational: the state machine of the code: files are loaded in any  *)
(*    order, extends/includes are resolved by passes over the groups in    *)
(*    load order until nothing moves, then definitions are registered in   *)
(*    load order, then references are resolved against them.               *)
(* Confluence (the invariants below) says the outcome of the machine is    *)
(* the declarative one for every load order: properties R01, R02, R03.     *)
(* The same module generates the cases replayed into the real resolver.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS N,           \* number of groups
          Attrs,       \* set of attribute names
          Fields,      \* overridable attribute fields
          KindPool,    \* kinds to draw from
          Random,      \* TRUE: one random registry per behaviour; FALSE: all
          MaxInc,      \* maximum number of included groups
          Chain,       \* TRUE: every group extends (or includes) the next one
          FirstWins    \* TRUE: the conflict rule of the code before the fix (order dependent)

GroupSeq == [i \in 1..N |-> "g" \o ToString(i)]     \* the groups in canonical order
Groups == {GroupSeq[i] : i \in 1..N}
None == "-"
Missing == "missing"

V1   == {"ag1", "span1", "event1", "metric1", "entity1"}
Ag2  == {"ag2p", "ag2i"}
Sig2 == {"span2", "metric2", "event2", "entity2"}
Ref2 == {"rspan2", "rmetric2", "revent2", "rentity2"}
BaseKind(k) == CASE k = "rspan2" -> "span2" [] k = "rmetric2" -> "metric2"
                 [] k = "revent2" -> "event2" [] k = "rentity2" -> "entity2" [] OTHER -> None

\* Attribute fields that a declaration of kind k may set.
FieldsOf(k, d) ==
  Fields \cap
  CASE k \in V1 -> {"brief","note","examples","tag","requirement_level","sampling_relevant","stability","deprecated","annotations","role"}
    [] k = "defs2" -> {"brief","note","examples","stability","deprecated","annotations"}
    [] k \in {"span2","rspan2"} -> {"brief","note","examples","requirement_level","sampling_relevant","stability","deprecated","annotations"}
    [] OTHER -> {"brief","note","examples","requirement_level","stability","deprecated","annotations"}
\* Fields that every declaration of kind k sets.
Forced(k, d) == Fields \cap (CASE k = "defs2" -> {"brief","stability"}
                               [] k \in V1 /\ d = "id" -> {"brief","stability"}
                               [] k \in {"entity2","rentity2"} -> {"role"} [] OTHER -> {})

GFields == {"brief","note","stability","deprecated","annotations","span_name","requirement_level"}
GFieldsOf(k) == CASE k \in Ref2 -> {"brief","note","stability","deprecated","annotations"} \cup (IF k = "rspan2" THEN {"span_name"} ELSE {})
                  [] k \in Sig2 -> {"note","deprecated","annotations","requirement_level"}
                  [] OTHER -> {}
GForced(k) == CASE k \in Sig2 -> {"brief","stability"} \cup (IF k = "span2" THEN {"span_name"} ELSE {}) [] OTHER -> {}

VARIABLES nice,     \* generation bias: mostly well-formed registries
          kind,     \* Groups -> kind
          body,     \* filled groups -> declaration
          pc, order,
          pos, merged, passErr, moved, fatal,   \* extends/include passes
          outcome
vars == <<nice, kind, body, pc, order, pos, merged, passErr, moved, fatal, outcome>>

Idx(g) == CHOOSE i \in 1..N : GroupSeq[i] = g
Rank(g) == (IF kind[g] = "defs2" THEN 1000 ELSE 0) + (CHOOSE i \in 1..Len(GroupSeq) : GroupSeq[i] = g)

(***************************************************************************)
(* Declarative semantics                                                   *)
(***************************************************************************)
OwnSpec(g, a) == LET o == body[g].own[a] IN
  [k |-> o.k, def |-> IF o.k = "id" THEN g ELSE None,
   fld |-> [f \in Fields |-> IF f \in o.f THEN g ELSE None]]

Overlay(new, old) == IF new.k = "id" THEN new
  ELSE [k |-> old.k, def |-> old.def, fld |-> [f \in Fields |-> IF new.fld[f] # None THEN new.fld[f] ELSE old.fld[f]]]

NoAttr == [k |-> None]
Apply(new, old) == IF new.k = None THEN old ELSE IF old.k = None THEN new ELSE Overlay(new, old)

OwnAttrs(g) == [a \in Attrs |-> IF body[g].own[a].k = None THEN NoAttr ELSE OwnSpec(g, a)]
\* Attributes of g from those of its parent and included groups (eff: resolved groups -> attributes).
Combine(g, eff) ==
  LET base == IF body[g].ext = None THEN [a \in Attrs |-> NoAttr] ELSE eff[body[g].ext]
      inc  == FoldLeft(LAMBDA acc, i : [a \in Attrs |-> Apply(eff[i][a], acc[a])], base, body[g].inc)
      own  == OwnAttrs(g)
  IN [a \in Attrs |-> Apply(own[a], inc[a])]

Incs(g) == {body[g].inc[i] : i \in 1..Len(body[g].inc)}
Leaf(g) == body[g].ext = None /\ body[g].inc = <<>>

\* attributes brought by more than one included group
IncConflicts(g, eff) ==
  {a \in Attrs : \E i, j \in 1..Len(body[g].inc) : i < j /\ body[g].inc[i] \in DOMAIN eff /\ body[g].inc[j] \in DOMAIN eff
                    /\ eff[body[g].inc[i]][a].k # None /\ eff[body[g].inc[j]][a].k # None}

CanMerge(g, eff) == Incs(g) \subseteq DOMAIN eff /\ IncConflicts(g, eff) = {}
                    /\ (body[g].ext = None \/ body[g].ext \in DOMAIN eff)

\* Least fixpoint: what can be resolved at all, with its attributes.
RECURSIVE Fix(_)
Fix(eff) == LET new == {g \in Groups \ DOMAIN eff : CanMerge(g, eff)} IN
  IF new = {} THEN eff ELSE Fix([g \in DOMAIN eff \cup new |-> IF g \in new THEN Combine(g, eff) ELSE eff[g]])
EffAll == Fix([g \in {} |-> NoAttr])

ErrInc(g, eff) == {<<"include", g, i>> : i \in Incs(g) \ DOMAIN eff} \cup {<<"dupinc", g, a>> : a \in IncConflicts(g, eff)}
StuckErr(g, eff) == IF ErrInc(g, eff) # {} THEN ErrInc(g, eff)
                    ELSE {<<"extends", g, body[g].ext>>}
\* A refinement of an entity must not change what identifies it.
RoleOf(s, a) == IF s = None THEN None ELSE body[s].own[a].r
IdentityErr(g, eff) ==
  IF kind[g] # "rentity2" \/ "role" \notin Fields THEN {} ELSE
  LET p == eff[body[g].ext] IN
  {<<"identity", g, a>> : a \in {x \in Attrs :
     /\ body[g].own[x].k = "ref"
     /\ IF p[x].k # None THEN p[x].fld["role"] # None /\ RoleOf(p[x].fld["role"], x) # body[g].own[x].r
                         ELSE body[g].own[x].r = "identifying"}}

Definers(a) == {g \in Groups : body[g].own[a].k = "id"}
RootOf(a) == IF Definers(a) = {} THEN None ELSE CHOOSE g \in Definers(a) : \A h \in Definers(a) : Rank(g) <= Rank(h)

\* Final attribute of a group, given the choice of definitions.
FinalAttr(e, a, root) == IF e.k = "ref" THEN Overlay([e EXCEPT !.k = "ref"], OwnSpec(root, a)) ELSE e
Unresolved(eff, rootOf(_)) == {<<"attr", g, a>> : g \in {x \in DOMAIN eff : \E b \in Attrs : eff[x][b].k = "ref" /\ rootOf(b) = None},
                                               a \in {b \in Attrs : rootOf(b) = None}} \cap
                              {<<"attr", g, a>> : g \in DOMAIN eff, a \in Attrs}
UnresolvedRefs(eff, rootOf(_)) == {u \in Unresolved(eff, rootOf) : eff[u[2]][u[3]].k = "ref"}

Fail(errs) == [ok |-> FALSE, errs |-> errs]
Visible == {g \in Groups : kind[g] # "ag2i"}
Success(eff, rootOf(_)) == [ok |-> TRUE, attrs |-> [g \in Visible |-> [a \in Attrs |->
     IF eff[g][a].k = None THEN NoAttr
     ELSE LET x == FinalAttr(eff[g][a], a, rootOf(a)) IN [k |-> "attr", def |-> x.def, fld |-> x.fld]]]]

Declared ==
  LET eff == EffAll
      stuck == Groups \ DOMAIN eff
      ident == UNION {IdentityErr(g, eff) : g \in DOMAIN eff}
      serr == UNION {StuckErr(g, eff) : g \in stuck}
  IN IF stuck # {} \/ ident # {} THEN Fail(serr \cup ident)
     ELSE IF UnresolvedRefs(eff, RootOf) # {} THEN Fail(UnresolvedRefs(eff, RootOf))
     ELSE Success(eff, RootOf)

\* Group level fields a refinement inherits from its base ("annotations" are merged: the set of contributors).
RECURSIVE GSetter(_, _)
GSetter(g, f) == IF f \in body[g].g THEN g
                 ELSE IF kind[g] \in Ref2 /\ body[g].ext \in Groups THEN GSetter(body[g].ext, f) ELSE None
RECURSIVE GContrib(_)
GContrib(g) == (IF "annotations" \in body[g].g THEN {g} ELSE {}) \cup
               (IF kind[g] \in Ref2 /\ body[g].ext \in Groups THEN GContrib(body[g].ext) ELSE {})

(***************************************************************************)
(* The version 2 form (R05): where each group goes.                        *)
(***************************************************************************)
Family(k) == CASE k \in {"span1","span2","rspan2"} -> "span" [] k \in {"event1","event2","revent2"} -> "event"
               [] k \in {"metric1","metric2","rmetric2"} -> "metric" [] k \in {"entity1","entity2","rentity2"} -> "entity"
               [] OTHER -> None
Refines(g) == /\ body[g].ext \in Groups /\ Family(kind[g]) # None /\ Family(kind[body[g].ext]) = Family(kind[g])
V2Home(g) == CASE Family(kind[g]) # None -> IF Refines(g) THEN "refinement" ELSE "signal"
               [] kind[g] = "ag2p" -> "attribute_group" [] OTHER -> None
V2Form == [g \in Groups |-> [home |-> V2Home(g), family |-> Family(kind[g]), base |-> IF V2Home(g) = "refinement" THEN body[g].ext ELSE g]]
\* attribute definitions of the registry
V2Defs == [a \in Attrs |-> {g \in Groups : body[g].own[a].k = "id"}]

(***************************************************************************)
(* The machine                                                             *)
(***************************************************************************)
R(S) == RandomElement(S)
RSub(S) == {x \in S : R({TRUE, FALSE})}
\* the group made for a file of attribute definitions has no name that users know
ExtChoices(g) == CASE kind[g] \in V1 -> {None, Missing} \cup {h \in Groups : kind[h] # "defs2"}
                   [] kind[g] \in Ref2 -> {Missing} \cup {h \in Groups : kind[h] = BaseKind(kind[g])}
                   [] OTHER -> {None}
IncOk(g) == kind[g] \in Ag2 \cup {"span2","metric2","event2","rspan2","rmetric2","revent2"}
\* what may be included: attribute groups of either version (and, by id, anything else that has one)
IncTargets(g) == {h \in Groups : kind[h] # "defs2"} \cup {Missing}
DeclKinds(g) == CASE kind[g] \in V1 -> {None, "id", "ref"} [] kind[g] = "defs2" -> {None, "id"} [] OTHER -> {None, "ref"}
Roles(g) == IF "role" \in Fields /\ kind[g] \in {"entity2","rentity2"} \cup V1 THEN {"identifying","descriptive"} ELSE {None}

Init == /\ nice \in (IF Random THEN {TRUE, FALSE} ELSE {FALSE}) /\ kind = [g \in Groups |-> None] /\ body = [g \in {} |-> None] /\ pc = "kinds" /\ order = <<>> /\ pos = 1
        /\ merged = [g \in {} |-> None] /\ passErr = {} /\ moved = FALSE /\ fatal = {} /\ outcome = None

PickKinds == /\ pc = "kinds"
             /\ IF Random THEN kind' = TLCEval([g \in Groups |-> IF nice /\ g = GroupSeq[N] THEN R({"defs2","ag1"}) ELSE R(KindPool)])
                ELSE kind' \in [Groups -> KindPool]
             /\ pc' = "fixkinds" /\ UNCHANGED <<nice, body, order, pos, merged, passErr, moved, fatal, outcome>>
\* well-formed registries have a base for every refinement
FixKinds == /\ pc = "fixkinds"
            /\ kind' = [g \in Groups |-> IF nice /\ kind[g] \in Ref2 /\ ~\E h \in Groups : Idx(h) > Idx(g) /\ kind[h] = BaseKind(kind[g]) THEN BaseKind(kind[g]) ELSE kind[g]]
            /\ pc' = "fill" /\ UNCHANGED <<nice, body, order, pos, merged, passErr, moved, fatal, outcome>>

Decl(d, fs, r) == [k |-> d, f |-> fs, r |-> r]
RandomDecl(g) == LET d == R(IF nice /\ Idx(g) = N THEN {"id"} ELSE IF nice /\ R(1..5) # 1 THEN DeclKinds(g) \ {"id"} ELSE IF kind[g] = "defs2" THEN {"id", None} ELSE IF kind[g] = "ag1" THEN {"id","ref",None} ELSE IF R(1..3) = 1 THEN DeclKinds(g) ELSE DeclKinds(g) \ {"id"}) IN
  TLCEval([k |-> d, f |-> IF d = None THEN {} ELSE RSub(FieldsOf(kind[g], d)) \cup Forced(kind[g], d), r |-> R(Roles(g))])
\* a version 2 entity needs an identifying attribute
Fit(g, own) == IF kind[g] = "entity2" /\ \A a \in Attrs : own[a].k = None \/ own[a].r # "identifying"
               THEN [own EXCEPT ![CHOOSE a \in Attrs : TRUE] = [k |-> "ref", f |-> Forced("entity2", "ref"), r |-> "identifying"]] ELSE own
\* keep the base entity's identity in well-formed registries
FitRole(g, e, own) == IF ~nice \/ kind[g] # "rentity2" \/ e \notin DOMAIN body THEN own
  ELSE [a \in Attrs |-> IF own[a].k = None THEN own[a] ELSE [own[a] EXCEPT !.r = IF body[e].own[a].k # None THEN body[e].own[a].r ELSE "descriptive"]]
\* mostly sensible targets, sometimes missing ones or cycles
RandomExt(g) == IF Chain THEN IF kind[g] \notin V1 \/ Idx(g) = N THEN None ELSE GroupSeq[Idx(g) + 1] ELSE LET c == ExtChoices(g)  good == {h \in c \cap Groups : h # g} up == {h \in good : Idx(h) > Idx(g)} IN
  IF nice THEN (IF kind[g] \in Ref2 THEN (IF up # {} THEN R(up) ELSE Missing) ELSE IF c = {None} THEN None ELSE R(up \cup {None}))
  ELSE IF kind[g] \in Ref2 THEN (IF good # {} /\ R(1..12) # 1 THEN R(good) ELSE Missing)
  ELSE IF c = {None} \/ R(1..2) = 1 THEN None
  ELSE IF R(1..14) = 1 THEN R(c) ELSE IF R(1..8) = 1 THEN R(good \cup {None}) ELSE R(up \cup {None})
RandomInc(g) == IF ~IncOk(g) \/ MaxInc = 0 THEN <<>> ELSE IF Chain THEN IF Idx(g) = N THEN <<>> ELSE <<GroupSeq[Idx(g) + 1]>> ELSE
  LET ags == {h \in Groups : kind[h] \in Ag2 \cup {"ag1"} /\ (IF nice THEN Idx(h) > Idx(g) /\ Idx(h) < N ELSE h # g)}
      n == R(0..MaxInc) IN
  IF ~nice /\ R(1..16) = 1 THEN <<R(IncTargets(g))>>
  ELSE IF n = 0 \/ ags = {} THEN <<>> ELSE IF n = 1 \/ Cardinality(ags) = 1 THEN <<R(ags)>>
  ELSE LET x == R(ags) y == R(ags \ {x}) IN TLCEval(<<x, y>>)

Next1 == CHOOSE i \in 1..N : GroupSeq[i] \notin DOMAIN body /\ \A j \in (i+1)..N : GroupSeq[j] \in DOMAIN body

FillRandom == /\ pc = "fill" /\ Random /\ DOMAIN body # Groups
  /\ LET g == GroupSeq[Next1] IN
     body' = TLCEval([h \in DOMAIN body \cup {g} |-> IF h # g THEN body[h] ELSE
        TLCEval([ext |-> TLCEval(RandomExt(g)), inc |-> TLCEval(RandomInc(g)),
          own |-> TLCEval(Fit(g, TLCEval([a \in Attrs |-> RandomDecl(g)]))),
          g |-> TLCEval(RSub(GFieldsOf(kind[g])) \cup GForced(kind[g])), pfx |-> R({TRUE, FALSE})])])
  /\ UNCHANGED <<nice, kind, pc, order, pos, merged, passErr, moved, fatal, outcome>>

FillAll == /\ pc = "fill" /\ ~Random /\ DOMAIN body # Groups
  /\ LET g == GroupSeq[Next1] IN
     \E e \in ExtChoices(g), i \in {<<>>} \cup (IF IncOk(g) /\ MaxInc > 0 THEN {<<h>> : h \in IncTargets(g)} ELSE {})
            \cup (IF IncOk(g) /\ MaxInc > 1 THEN {<<h, j>> : h \in Groups, j \in Groups} ELSE {}),
        own \in [Attrs -> UNION {{Decl(d, fs \cup Forced(kind[g], d), r) : fs \in (IF d = None THEN {{}} ELSE SUBSET FieldsOf(kind[g], d)), r \in Roles(g)} : d \in DeclKinds(g)}] :
       /\ own = Fit(g, own)
       /\ body' = [h \in DOMAIN body \cup {g} |-> IF h # g THEN body[h] ELSE [ext |-> e, inc |-> i, own |-> own, g |-> GForced(kind[g]), pfx |-> FALSE]]
  /\ UNCHANGED <<nice, kind, pc, order, pos, merged, passErr, moved, fatal, outcome>>

FillDone == /\ pc = "fill" /\ DOMAIN body = Groups /\ pc' = "load"
            /\ body' = [g \in Groups |-> [body[g] EXCEPT !.own = FitRole(g, body[g].ext, @)]]
            /\ UNCHANGED <<nice, kind, order, pos, merged, passErr, moved, fatal, outcome>>

\* Files are loaded in parallel: any order of the groups is possible.
Load == /\ pc = "load"
        /\ IF Len(order) = Cardinality(Groups) THEN pc' = "extends" /\ UNCHANGED order
           ELSE LET rest == Groups \ {order[i] : i \in 1..Len(order)} IN
                (IF Random THEN order' = Append(order, R(rest)) ELSE \E g \in rest : order' = Append(order, g)) /\ UNCHANGED pc
        /\ UNCHANGED <<nice, kind, body, pos, merged, passErr, moved, fatal, outcome>>

\* One step of a pass: the next group in load order is merged if everything it needs is there, else it is an error of this pass.
\* Groups without extends or include are in the index from the start of every pass.
ExtendsStep ==
  /\ pc = "extends" /\ pos <= Len(order)
  /\ LET leaves == {h \in Groups : Leaf(h)}
         idx == [h \in DOMAIN merged \cup leaves |-> IF h \in DOMAIN merged THEN merged[h] ELSE OwnAttrs(h)]
         g == order[pos] IN
     IF g \in DOMAIN idx THEN merged' = idx /\ UNCHANGED <<passErr, moved, fatal>>
     ELSE IF CanMerge(g, idx)
       THEN /\ merged' = [h \in DOMAIN idx \cup {g} |-> IF h = g THEN Combine(g, idx) ELSE idx[h]]
            /\ fatal' = fatal \cup IdentityErr(g, idx) /\ moved' = TRUE /\ UNCHANGED passErr
       ELSE merged' = idx /\ passErr' = passErr \cup StuckErr(g, idx) /\ UNCHANGED <<moved, fatal>>
  /\ pos' = pos + 1 /\ UNCHANGED <<nice, kind, body, pc, order, outcome>>

ExtendsPassEnd ==
  /\ pc = "extends" /\ pos > Len(order)
  /\ IF passErr = {} THEN IF fatal = {} THEN pc' = "refs" /\ UNCHANGED <<outcome, pos, passErr, moved>>
                          ELSE pc' = "done" /\ outcome' = Fail(fatal) /\ UNCHANGED <<pos, passErr, moved>>
     ELSE IF ~moved THEN pc' = "done" /\ outcome' = Fail(passErr \cup fatal) /\ UNCHANGED <<pos, passErr, moved>>
     ELSE pos' = 1 /\ passErr' = {} /\ moved' = FALSE /\ UNCHANGED <<pc, outcome>>
  /\ UNCHANGED <<nice, kind, body, order, merged, fatal>>

\* Definitions are registered in load order; a second candidate for a name meets the conflict rule.
Better(new, old) == IF FirstWins THEN FALSE
                    ELSE IF new.own # old.own THEN new.own ELSE Rank(new.g) < Rank(old.g)
RootTable(a) ==
  FoldLeft(LAMBDA acc, g : IF merged[g][a].k # "id" THEN acc
                           ELSE LET c == [g |-> g, own |-> body[g].own[a].k = "id"] IN
                                IF acc.g = None \/ Better(c, acc) THEN c ELSE acc,
           [g |-> None, own |-> FALSE], order)
RefsStep ==
  /\ pc = "refs"
  /\ LET tab == [a \in Attrs |-> RootTable(a)]
         rootOf(a) == tab[a].g
         un == UnresolvedRefs(merged, rootOf)
         fin(e, a) == IF e.k = "ref" THEN Overlay(e, merged[tab[a].g][a]) ELSE e
     IN outcome' = IF un # {} THEN Fail(un)
          ELSE [ok |-> TRUE, attrs |-> [g \in Visible |-> [a \in Attrs |-> IF merged[g][a].k = None THEN NoAttr
                  ELSE LET x == fin(merged[g][a], a) IN [k |-> "attr", def |-> x.def, fld |-> x.fld]]]]
  /\ pc' = "done" /\ UNCHANGED <<nice, kind, body, order, pos, merged, passErr, moved, fatal>>

\* Emission of a finished behaviour as a test case.
Case == [groups |-> [g \in Groups |-> [kind |-> kind[g], ext |-> body[g].ext, inc |-> body[g].inc, own |-> body[g].own, g |-> body[g].g, pfx |-> body[g].pfx]],
         order |-> order, outcome |-> outcome, v2 |-> V2Form, defs |-> V2Defs,
         gset |-> [g \in Groups |-> [f \in GFields |-> GSetter(g, f)]], gann |-> [g \in Groups |-> GContrib(g)]]
Emit == pc = "done" /\ Random /\ PrintT("@@" \o ToJson(Case)) /\ pc' = "end" /\ UNCHANGED <<nice, kind, body, order, pos, merged, passErr, moved, fatal, outcome>>

Next == PickKinds \/ FixKinds \/ FillRandom \/ FillAll \/ FillDone \/ Load \/ ExtendsStep \/ ExtendsPassEnd \/ RefsStep \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What is checked                                                         *)
(***************************************************************************)
\* R01, R02, R03: whatever the load order, the machine ends with the declarative outcome.
Confluent == pc = "done" => outcome = Declared
\* R02: success means nothing dangling, and no registry with a cycle or a missing target succeeds.
Reach(g) == LET RECURSIVE Up(_, _)
                Up(S, n) == IF n = 0 THEN S ELSE Up(S \cup UNION {({body[h].ext} \cup Incs(h)) \cap Groups : h \in S}, n - 1)
            IN Up(({body[g].ext} \cup Incs(g)) \cap Groups, Cardinality(Groups))
NoDangling == (pc = "done" /\ outcome.ok) =>
   \A g \in Groups : /\ body[g].ext # Missing /\ Missing \notin Incs(g) /\ g \notin Reach(g)
                     /\ \A a \in Attrs : body[g].own[a].k = "ref" => Definers(a) # {}
                        \/ \E h \in Reach(g) : body[h].own[a].k = "id"
Complaint == (pc = "done" /\ ~outcome.ok) => outcome.errs # {}
\* R01: a field is set by the group itself, one it reaches, or the definition; the group's own setting always wins.
Nearest == (pc = "done" /\ outcome.ok) => \A g \in Visible : \A a \in Attrs : outcome.attrs[g][a].k # None =>
   LET x == outcome.attrs[g][a] IN
   /\ \A f \in Fields : x.fld[f] \in {None, g, x.def, RootOf(a)} \cup Reach(g)
   /\ \A f \in Fields \cap body[g].own[a].f : x.fld[f] = g
   /\ body[x.def].own[a].k = "id"
\* R05: every signal has one home, a refinement's base is in the registry and of its kind, and every definition that is used is kept.
V2Whole == (pc = "done" /\ outcome.ok) =>
   /\ \A g \in Groups : Family(kind[g]) # None => V2Form[g].home \in {"signal", "refinement"} /\ Family(kind[V2Form[g].base]) = Family(kind[g])
   /\ \A g \in Visible : \A a \in Attrs : outcome.attrs[g][a].k # None => outcome.attrs[g][a].def \in V2Defs[a]
=============================================================================
