------------------------------- MODULE Diff --------------------------------
(***************************************************************************)
(* Differences between versions of a registry (S01).                       *)
(*                                                                         *)
(* State: the history of a registry (a sequence of versions, each obtained *)
(* from the previous one by adding, removing, deprecating, restoring items *)
(* or changing why they are deprecated), and the run of a comparison of    *)
(* two versions: it visits the items of the new version and then those of  *)
(* the old one, in any order, and appends to a list of changes.            *)
(* Checked: the list is the declarative difference, each change once       *)
(* (ListExact), nothing is listed for equal versions (SelfEmpty), applying *)
(* the list to the old version gives the new one's items (Applies), and    *)
(* the list is consistent over the history (Chain, Mirror).                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Random, Kinds, Names, Versions, Edits
None == "-"
R(S) == RandomElement(S)
VARIABLES pc, hist, left, pair, todo, list
vars == <<pc, hist, left, pair, todo, list>>

(* An item: absent, live, or deprecated for a reason. The note "spelled"   *)
(* is the text that a renamed item gets when it has no note ("default").   *)
Dep(k, to, note) == [k |-> k, to |-> to, note |-> note]
Absent == Dep("absent", None, None)
Live == Dep("live", None, None)
Deps == {Dep("renamed", t, n) : t \in Names, n \in {"default", "spelled", "n1", "n2"}} \cup {Dep(k, None, n) : k \in {"obsoleted", "uncategorized"}, n \in {"default", "spelled", "n1", "n2"}}
          \cup {Dep("unspecified", None, n) : n \in {"n1", "n2"}}
Items == {Absent, Live} \cup Deps
\* what the item says, however it is written
Norm(i) == IF i.note = "spelled" THEN [i EXCEPT !.note = "default"] ELSE i
IsDep(i) == i.k \notin {"absent", "live"}

(* ------------------------------ declarative ---------------------------- *)
Category(i) == IF i.k = "unspecified" THEN "uncategorized" ELSE i.k
Change(b, h) == CASE b.k = "absent" /\ h.k = "absent" -> None
   [] b.k = "absent" -> "added" [] h.k = "absent" -> "removed"
   [] IsDep(h) /\ Norm(h) # Norm(b) -> Category(h) [] OTHER -> None
Entry(k, n, b, h) == LET c == Change(b, h) IN [kind |-> k, name |-> n, change |-> c,
   to |-> IF c \in {"added", "removed"} THEN None ELSE h.to, note |-> IF c \in {"added", "removed"} THEN None ELSE Norm(h).note]
Diff(b, h) == {Entry(x[1], x[2], b[x[1]][x[2]], h[x[1]][x[2]]) : x \in {y \in Kinds \X Names : Change(b[y[1]][y[2]], h[y[1]][y[2]]) # None}}

(* ------------------------------- history ------------------------------- *)
Start == [k \in Kinds |-> [n \in Names |-> Absent]]
Init == pc = "evolve" /\ hist = <<Start>> /\ left = Edits /\ pair = <<0, 0>> /\ todo = <<{}, {}>> /\ list = <<>>
Last1 == hist[Len(hist)]
\* one edit of the version under way
Moves(i) == CASE i.k = "absent" -> {Live} [] i.k = "live" -> Deps \cup {Absent} [] OTHER -> {Live, Absent} \cup Deps
Weighted(i, z_) == LET p == R(1..100) IN
   CASE i.k = "absent" -> IF p <= 85 THEN Live ELSE R(Deps)
     [] i.k = "live" -> IF p <= 75 THEN R(Deps) ELSE Absent
     [] OTHER -> IF p <= 20 THEN Live ELSE IF p <= 35 THEN Absent ELSE IF p <= 65 THEN [i EXCEPT !.note = IF i.k = "unspecified" THEN R({"n1", "n2"}) ELSE R({"default", "spelled", "n1", "n2"})] ELSE R(Deps)
EditR == /\ Random /\ pc = "evolve" /\ left > 0
  /\ \E k \in {R(Kinds)} : \E n \in {R(Names)} : \E i \in {Weighted(Last1[k][n], 0)} : hist' = [hist EXCEPT ![Len(hist)][k][n] = i]
  /\ left' = left - 1 /\ UNCHANGED <<pc, pair, todo, list>>
EditA == /\ ~Random /\ pc = "evolve" /\ left > 0
  /\ \E k \in Kinds, n \in Names : \E i \in Moves(Last1[k][n]) : hist' = [hist EXCEPT ![Len(hist)][k][n] = i]
  /\ left' = left - 1 /\ UNCHANGED <<pc, pair, todo, list>>
\* The first version is made of as many edits as there are items; later versions of a few each.
Publish == /\ pc = "evolve" /\ Len(hist) < Versions /\ (left = 0 \/ ~Random)
  /\ hist' = Append(hist, Last1) /\ left' = (IF Random THEN R(1..Edits) ELSE Edits) /\ UNCHANGED <<pc, pair, todo, list>>
Freeze == pc = "evolve" /\ Len(hist) = Versions /\ (left = 0 \/ ~Random) /\ pc' = (IF Random THEN "done" ELSE "choose") /\ UNCHANGED <<hist, left, pair, todo, list>>

(* ------------------------ a run of the comparison ---------------------- *)
Present(v) == {x \in Kinds \X Names : v[x[1]][x[2]].k # "absent"}
Choose == pc = "choose" /\ \E b, h \in 1..Versions : pair' = <<b, h>> /\ todo' = <<Present(hist[h]), Present(hist[b])>>
   /\ pc' = "head" /\ UNCHANGED <<hist, left, list>>
B(x) == hist[pair[1]][x[1]][x[2]]
H(x) == hist[pair[2]][x[1]][x[2]]
HeadStep == pc = "head" /\ \E x \in todo[1] : todo' = <<todo[1] \ {x}, todo[2]>>
   /\ list' = (IF B(x).k = "absent" THEN Append(list, [kind |-> x[1], name |-> x[2], change |-> "added", to |-> None, note |-> None])
               ELSE IF IsDep(H(x)) /\ ~(IsDep(B(x)) /\ Norm(B(x)) = Norm(H(x)))
               THEN Append(list, [kind |-> x[1], name |-> x[2], change |-> Category(H(x)), to |-> H(x).to, note |-> Norm(H(x)).note]) ELSE list)
   /\ UNCHANGED <<pc, hist, left, pair>>
BaseStep == pc = "base" /\ \E x \in todo[2] : todo' = <<todo[1], todo[2] \ {x}>>
   /\ list' = (IF H(x).k = "absent" THEN Append(list, [kind |-> x[1], name |-> x[2], change |-> "removed", to |-> None, note |-> None]) ELSE list)
   /\ UNCHANGED <<pc, hist, left, pair>>
PassEnd == \/ pc = "head" /\ todo[1] = {} /\ pc' = "base" /\ UNCHANGED <<hist, left, pair, todo, list>>
           \/ pc = "base" /\ todo[2] = {} /\ pc' = "done" /\ UNCHANGED <<hist, left, pair, todo, list>>

Case == [hist |-> hist, diffs |-> [b \in 1..Versions |-> [h \in 1..Versions |-> SetToSeq(Diff(hist[b], hist[h]))]]]
Emit == pc = "done" /\ Random /\ PrintT("@@" \o ToJson(Case)) /\ pc' = "end" /\ UNCHANGED <<hist, left, pair, todo, list>>
Next == EditR \/ EditA \/ Publish \/ Freeze \/ Choose \/ HeadStep \/ BaseStep \/ PassEnd \/ Emit
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Compared == pc = "done" /\ ~Random
ListExact == Compared => /\ ToSet(list) = Diff(hist[pair[1]], hist[pair[2]]) /\ Len(list) = Cardinality(ToSet(list))
OncePerItem == \A i, j \in DOMAIN list : i # j => <<list[i].kind, list[i].name>> # <<list[j].kind, list[j].name>>
SelfEmpty == Compared /\ hist[pair[1]] = hist[pair[2]] => list = <<>>
Named(S, c) == {<<e.kind, e.name>> : e \in {x \in S : x.change = c}}
Applies == Compared => Present(hist[pair[2]]) = (Present(hist[pair[1]]) \ Named(ToSet(list), "removed")) \cup Named(ToSet(list), "added")
\* over a history: what is added and never removed is added; what is listed at the end was listed at some step
V == 1..Len(hist)
Chain == pc = "done" => LET b == 1 h == Len(hist) D == Diff(hist[b], hist[h]) Steps == UNION {Diff(hist[v], hist[v + 1]) : v \in 1..(Len(hist) - 1)} IN
   /\ \A c \in {"added", "removed"} : Named(D, c) \subseteq Named(Steps, c)
   /\ \A e \in D : e.change \in {"renamed", "obsoleted", "uncategorized"} => \E s \in Steps : s = e \/ (s.kind = e.kind /\ s.name = e.name /\ s.change = "added")
Mirror == pc = "done" => \A b, h \in V : Named(Diff(hist[b], hist[h]), "added") = Named(Diff(hist[h], hist[b]), "removed")
=============================================================================
