------------------------------- MODULE Graph -------------------------------
(* Dependency graphs of registries (D01).                                    *)
(*                                                                           *)
(* A registry is a name, a version (major, rank of the minor) and a manifest *)
(* with a sequence of dependencies, each naming an exact version. Loading is *)
(* a machine: depth-first in manifest order, with a stack, the versions      *)
(* chosen so far, and the first error. What it should come to is said        *)
(* declaratively: a graph is rejected iff some walk repeats a name, or is    *)
(* too long, or two majors of one name are reachable; otherwise every name   *)
(* has one version, the highest reachable, and everything the main registry  *)
(* shows of it comes from that version.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Random, NI, NN, MaxDepth, Chain
VARIABLES pc, inst, an, stack, chosen, err
vars == <<pc, inst, an, stack, chosen, err>>
R(S) == RandomElement(S)
P(pct) == R(1..100) <= pct
Names == 1..NN
Main == 0

\* an instance: name, major, rank, deps (indices), published, without attribute y,
\* wanted uses of attributes x and y (names), wanted imports (a name or 0 = everything)
Mk(n, M, r, deps, pub, lacks, wx, wy, wi) == [n |-> n, M |-> M, r |-> r, deps |-> deps, pub |-> pub, lacks |-> lacks, wx |-> wx, wy |-> wy, wi |-> wi]
K == DOMAIN inst
L == Len(inst)
Deps(k) == {inst[k].deps[j] : j \in DOMAIN inst[k].deps}
Same(k, q) == inst[k].n = inst[q].n

RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {Deps(k) : k \in S} IN IF T = S THEN S ELSE Closure(T)

(* ------------------------------ generation ----------------------------- *)
RSub(S, m) == IF S = {} THEN {} ELSE RandomSubset(Min({R(0..m), Cardinality(S)}), S)
\* keeps one of the chosen dependencies per name, unless siblings of one name are wanted
OnePer(S, keep) == IF keep THEN S ELSE {k \in S : \A q \in S : q > k => ~Same(k, q)}
Fresh(n, M, r) == \A k \in K : ~(inst[k].n = n /\ inst[k].M = M /\ inst[k].r = r)
RInst(z_) ==
  LET n == IF Chain THEN Len(inst) + 1 ELSE R(Names)
      old == IF P(6) THEN {k \in K : inst[k].n # n} ELSE {k \in K : inst[k].n < n}
      top == IF Chain /\ Len(inst) > 0 THEN {Len(inst)} ELSE {}
      ds == TLCEval(OnePer(top \cup RSub(IF P(3) THEN K ELSE old, IF Chain THEN 1 ELSE 3), P(10)))
  IN Mk(n, IF P(94) \/ Chain THEN 1 ELSE 2, IF Chain THEN 0 ELSE IF P(70) THEN R(0..1) ELSE R(0..3), SetToSeq(ds), P(20) /\ ~Chain, P(25), RSub(Names, 3), IF P(40) THEN RSub(Names, 2) ELSE {}, RSub(Names \cup {0}, 2))
GrowR == /\ Random /\ pc = "grow" /\ Len(inst) < NI
  /\ \E i \in {RInst(0)} : inst' = (IF Fresh(i.n, i.M, i.r) THEN Append(inst, i) ELSE inst)
  /\ \E stop \in {IF Chain THEN P(8) ELSE P(6)} : pc' = (IF stop /\ Len(inst) > 1 THEN "main" ELSE "grow") /\ UNCHANGED <<an, stack, chosen, err>>
FullR == Random /\ pc = "grow" /\ Len(inst) = NI /\ pc' = "main" /\ UNCHANGED <<inst, an, stack, chosen, err>>
\* the manifest of the main registry; rarely some registry gets an edge back, to it or to another one
MainR == /\ Random /\ pc = "main"
  /\ \E ds \in {OnePer((IF Chain THEN {L} ELSE RandomSubset(1, K)) \cup RSub(K, 5), FALSE)} : \E sq \in {R({SetToSeq(ds), Reverse(SetToSeq(ds))})} :
     \E keep \in {P(35)} : inst' = Append([k \in K |-> [inst[k] EXCEPT !.pub = @ /\ keep]], Mk(Main, 1, 0, sq, FALSE, FALSE, RSub(Names, 4), RSub(Names, 1), RSub(Names \cup {0}, 4)))
  /\ pc' = "back" /\ UNCHANGED <<an, stack, chosen, err>>
BackR == /\ Random /\ pc = "back"
  /\ \E b \in {IF P(12) THEN <<R(1..(L - 1)), R(1..L)>> ELSE <<>>} :
     inst' = (IF b = <<>> \/ b[1] \notin Closure({b[2]}) \cap Closure({L}) \/ b[2] \in Deps(b[1]) THEN inst ELSE [inst EXCEPT ![b[1]].deps = Append(@, b[2])])
  /\ pc' = "fit" /\ UNCHANGED <<an, stack, chosen, err>>

\* exhaustive: every graph over a small universe of versions
Uni == <<<<1, 1, 0>>, <<1, 1, 1>>, <<2, 1, 0>>, <<1, 2, 0>>, <<3, 1, 0>>>>
Seqs(S) == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}
GrowA == /\ ~Random /\ pc = "grow" /\ Len(inst) < NI
  /\ \E ds \in {d \in Seqs(1..(NI + 1)) : Len(d) < 2 \/ d[1] # d[2]} : LET u == Uni[Len(inst) + 1] IN inst' = Append(inst, Mk(u[1], u[2], u[3], ds, FALSE, FALSE, {}, {}, {}))
  /\ UNCHANGED <<pc, an, stack, chosen, err>>
MainA == /\ ~Random /\ pc = "grow" /\ Len(inst) = NI
  /\ \E ds \in {d \in Seqs(1..NI) : Len(d) < 2 \/ inst[d[1]].n # inst[d[2]].n} : inst' = Append(inst, Mk(Main, 1, 0, ds, FALSE, FALSE, {}, {}, {}))
  /\ pc' = "fit" /\ UNCHANGED <<an, stack, chosen, err>>

(* ------------------------- what should come out ------------------------ *)
\* an is what follows from the finished graph; it is computed once.
\* walks from k, given the names on the way: too long, or back to a name?
RECURSIVE Walk(_, _)
Walk(k, path) ==
  (IF Cardinality(path) = MaxDepth THEN {"deep"} ELSE {}) \cup
  (IF inst[k].n \in path THEN {"cycle"}
   ELSE IF Cardinality(path) = MaxDepth THEN {} ELSE UNION {Walk(d, path \cup {inst[k].n}) : d \in Deps(k)})
Conflict(S) == \E p, q \in S : Same(p, q) /\ inst[p].M # inst[q].M
Kinds == LET all == Closure({L}) IN Walk(L, {}) \cup (IF Conflict(all) THEN {"conflict"} ELSE {})
\* the highest version of a name in a set of instances
Top(S, n) == CHOOSE q \in S : inst[q].n = n /\ \A p \in S : inst[p].n = n => inst[p].r <= inst[q].r
NamesOf(S) == {inst[q].n : q \in S}

(* What registries define and use. A registry n defines attributes n.x and    *)
(* (unless "lacks") n.y and a metric n.m on n.x; for some d a metric n.use.d  *)
(* on d.x, n.usey.d on d.y; and passes on metrics of its dependencies.        *)
Item(o, k, d) == [o |-> o, k |-> k, d |-> d]
\* names whose attribute x a registry carries: its own, and what its groups use; a package has its own only
UseX(carry, k) == {d \in inst[k].wx : d # inst[k].n /\ \E q \in Deps(k) : d \in carry[q]}
Carry(pub) == FoldLeft(LAMBDA c, k : Append(c, {inst[k].n} \cup (IF k \in pub THEN {} ELSE UseX(c, k))), <<>>, [k \in K |-> k])
UseY(k) == {d \in inst[k].wy : d # inst[k].n /\ \E q \in Deps(k) : inst[q].n = d /\ ~inst[q].lacks}
OwnItems(carry, k) == (IF inst[k].n = Main THEN {} ELSE {Item(inst[k].n, "m", Main)}) \cup {Item(inst[k].n, "use", d) : d \in UseX(carry, k)} \cup {Item(inst[k].n, "usey", d) : d \in UseY(k)}
\* Only items are passed on whose version cannot matter: all versions have them, and
\* none of the registries is published when there are several versions.
Passable(own, i, pub) == LET os == {k \in K : inst[k].n = i.o} IN Cardinality(os) = 1 \/ (~pub /\ \A k \in os : i \in own[k])
Imports(own, has, k, pub) == {i \in UNION {has[q] : q \in Deps(k)} : Passable(own, i, pub) /\ i.o # inst[k].n /\ (0 \in inst[k].wi \/ i.o \in inst[k].wi)}
HasSeq(own, pub) == FoldLeft(LAMBDA h, k : Append(h, own[k] \cup Imports(own, h, k, pub)), <<>>, [k \in K |-> k])
\* registries that are read, from their sources or from their own package
RECURSIVE LoadedFrom(_, _)
LoadedFrom(S, pub) == LET T == S \cup UNION {Deps(k) : k \in {q \in S : q \notin pub}} IN IF T = S THEN S ELSE LoadedFrom(T, pub)
\* an attribute y is used that the chosen version no longer has
Misses(reach, has, k, pub) == \E i \in has[k] : i.k = "usey" /\ LET b == Top(reach[k], i.d) IN inst[b].lacks /\ b \in LoadedFrom({k} \cup Deps(k), pub)
Analyse ==
  LET kinds == TLCEval(Kinds) reach == TLCEval([k \in K |-> Closure({k})]) IN
  IF ~(kinds \subseteq {"conflict"}) \/ ~Random THEN [kinds |-> kinds, reach |-> reach, pub |-> {}]
  ELSE LET itemsFor(pub) == LET carry == TLCEval(Carry(pub)) IN [k \in K |-> OwnItems(carry, k)]
           own0 == TLCEval(itemsFor({})) has0 == TLCEval(HasSeq(own0, FALSE))
           \* published only where the package can be made
           able == {k \in K : inst[k].pub /\ ~Conflict(reach[k])}
           pub == TLCEval({k \in able : ~\E q \in reach[k] : Misses(reach, has0, q, {})})
           own == TLCEval(IF pub = {} THEN own0 ELSE itemsFor(pub))
           has == TLCEval(IF pub = {} THEN has0 ELSE HasSeq(own, TRUE))
       IN [kinds |-> kinds, reach |-> reach, pub |-> pub, own |-> own, has |-> has,
           missing |-> kinds = {} /\ \E q \in LoadedFrom({L}, pub) : q \notin pub /\ Misses(reach, has, q, pub),
           loaded |-> LoadedFrom({L}, pub)]
Fit == pc = "fit" /\ an' = Analyse /\ pc' = "load" /\ UNCHANGED <<inst, stack, chosen, err>>

(* ------------------------------- loading ------------------------------- *)
None == [k |-> "none", a |-> 0, b |-> 0]
Best2(p, q) == IF inst[p].r > inst[q].r THEN p ELSE q
Put(c, q) == (inst[q].n :> (IF inst[q].n \in DOMAIN c THEN Best2(c[inst[q].n], q) ELSE q)) @@ c
\* Registry k is loaded, st being the registries that are open. A published registry
\* is not opened further, but what it was built from takes part.
Load(k, st) ==
  LET fail(e) == err' = e /\ UNCHANGED <<stack, chosen>> n == inst[k].n IN
  IF Len(st) = MaxDepth THEN fail([k |-> "deep", a |-> k, b |-> 0])
  ELSE IF \E j \in DOMAIN st : inst[st[j].k].n = n THEN fail([k |-> "cycle", a |-> k, b |-> 0])
  ELSE IF n \in DOMAIN chosen /\ inst[chosen[n]].M # inst[k].M THEN fail([k |-> "conflict", a |-> chosen[n], b |-> k])
  ELSE LET clash == IF k \in an.pub THEN {q \in an.reach[k] \ {k} : inst[q].n \in DOMAIN chosen /\ inst[chosen[inst[q].n]].M # inst[q].M} ELSE {} IN
    IF clash # {} THEN fail([k |-> "conflict", a |-> chosen[inst[Min(clash)].n], b |-> Min(clash)])
    ELSE /\ UNCHANGED err
       /\ chosen' = (IF k \in an.pub THEN FoldSet(LAMBDA q, c : Put(c, q), Put(chosen, k), an.reach[k] \ {k}) ELSE Put(chosen, k))
       /\ stack' = (IF k \in an.pub THEN st ELSE Append(st, [k |-> k, j |-> 1]))
Begin == pc = "load" /\ Load(L, <<>>) /\ pc' = "run" /\ UNCHANGED <<inst, an>>
\* two versions of a name in one manifest are compared before the second is loaded
Clash(k, j) == {h \in 1..(j - 1) : LET p == inst[k].deps[h] q == inst[k].deps[j] IN Same(p, q) /\ inst[p].M # inst[q].M}
Step == /\ pc = "run" /\ stack # <<>> /\ err = None /\ UNCHANGED <<pc, inst, an>>
  /\ LET top == stack[Len(stack)] deps == inst[top.k].deps IN
     IF top.j > Len(deps) THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<chosen, err>>
     ELSE IF Clash(top.k, top.j) # {} THEN err' = [k |-> "conflict", a |-> deps[Min(Clash(top.k, top.j))], b |-> deps[top.j]] /\ UNCHANGED <<stack, chosen>>
     ELSE Load(deps[top.j], [stack EXCEPT ![Len(stack)].j = @ + 1])
Stop == pc = "run" /\ (stack = <<>> \/ err # None) /\ pc' = "done" /\ UNCHANGED <<inst, an, stack, chosen, err>>

Sq(S) == SetToSeq(S)
Below == an.reach[L] \ {L}
Texts(n) == LET b == Top(Below, n) IN IF b \in an.loaded THEN {b} ELSE {q \in Below : inst[q].n = n}
Warned == {k \in Deps(L) : Top(Below, inst[k].n) # k}
Case ==
  IF "own" \notin DOMAIN an THEN [inst |-> inst, kinds |-> Sq(an.kinds), err |-> err.k]
  ELSE IF an.kinds # {} THEN [inst |-> inst, kinds |-> Sq(an.kinds), err |-> err.k, pub |-> Sq(an.pub), own |-> [k \in K |-> Sq(an.own[k])],
        imported |-> [k \in K |-> Sq(an.has[k] \ an.own[k])], loaded |-> Sq(an.loaded), below |-> Sq(Below)]
  ELSE [inst |-> inst, kinds |-> IF an.missing THEN <<"missing">> ELSE <<>>, err |-> err.k, pub |-> Sq(an.pub),
        own |-> [k \in K |-> Sq(an.own[k])], imported |-> [k \in K |-> Sq(an.has[k] \ an.own[k])],
        warn |-> Sq({[n |-> inst[k].n, req |-> k, sel |-> Top(Below, inst[k].n)] : k \in Warned}),
        texts |-> [n \in Names |-> IF n \in NamesOf(Below) THEN Sq(Texts(n)) ELSE <<>>],
        loaded |-> Sq(an.loaded), below |-> Sq(Below)]
Emit == pc = "done" /\ Random /\ PrintT("@@" \o ToJson(Case)) /\ pc' = "end" /\ UNCHANGED <<inst, an, stack, chosen, err>>

Init == pc = "grow" /\ inst = <<>> /\ an = <<>> /\ stack = <<>> /\ chosen = [n \in {} |-> 0] /\ err = None
Next == GrowR \/ FullR \/ MainR \/ BackR \/ GrowA \/ MainA \/ Fit \/ Begin \/ Step \/ Stop \/ Emit
Spec == Init /\ [][Next]_vars

\* The graph is rejected iff it has a defect, and the error names one it has.
Rejected == pc = "done" => (err = None) = (an.kinds = {}) /\ (err # None => err.k \in an.kinds)
\* Otherwise every name below main has the highest version reachable, whatever the order.
OneVersion == pc = "done" /\ err = None => DOMAIN chosen = NamesOf(an.reach[L]) /\ \A n \in NamesOf(Below) : chosen[n] = Top(Below, n)
\* On the way only versions of one major are chosen, and choices only rise.
Rising == [][\A n \in DOMAIN chosen : n \in DOMAIN chosen' /\ inst'[chosen'[n]].M = inst[chosen[n]].M /\ inst'[chosen'[n]].r >= inst[chosen[n]].r]_vars
=============================================================================
