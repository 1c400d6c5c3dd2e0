------------------------------- MODULE Import -------------------------------
(* What a registry may use of others, and what it takes over (D02, D03).     *)
(*                                                                           *)
(* Registries are added one after the other, each depending on earlier ones; *)
(* the last one is the main registry. A registry declares attributes and     *)
(* items (metrics, events, spans, entities, attribute groups); a declaration *)
(* may be excluded from dependency resolution, a group may be internal. Its  *)
(* imports are patterns per family. Importing is a machine that goes through *)
(* the dependencies in manifest order and through what each offers in any    *)
(* order; what it should come to is said declaratively. The main registry    *)
(* also uses things: attributes, refined signals, entities its signals are   *)
(* associated with. A use of an excluded declaration of another registry is  *)
(* an error; groups of other registries cannot be included at all.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Random, NR, NN
VARIABLES pc, reg, cont, todo, got, main, out
vars == <<pc, reg, cont, todo, got, main, out>>
R(S) == RandomElement(S)
P(pct) == R(1..100) <= pct
Fams == {"metric", "event", "span", "entity", "group"}
L == Len(reg)
K == DOMAIN reg

\* an item: family, the namespace and number of its name, excluded, internal, the attribute it uses (namespace, number)
Itm(f, s, n, ex, int, as, an) == [f |-> f, s |-> s, n |-> n, ex |-> ex, int |-> int, as |-> as, an |-> an]
Att(s, n, ex) == [s |-> s, n |-> n, ex |-> ex]
\* a pattern: family, kind (all, ns, num, exact, none), whether it spells the prefixed id, namespace and number
Pat(f, t, id, s, n) == [f |-> f, t |-> t, id |-> id, s |-> s, n |-> n]
\* a registry: format, dependencies, items, attributes, patterns
Reg(fmt, deps, own, attrs, pats) == [fmt |-> fmt, deps |-> deps, own |-> own, attrs |-> attrs, pats |-> pats]
Range2(s) == {s[i] : i \in DOMAIN s}

(* --------------------------- names and patterns ------------------------- *)
\* Spellings of an item's name a pattern may use: its plain name, or its id with the family in front.
Keys(f, sh) ==
  CASE sh = "pub" -> {"plain"}
    [] sh = "v1" -> (CASE f = "span" -> {"id"} [] f = "entity" -> {"plain", "id"} [] OTHER -> {"plain"})
    [] OTHER -> IF f = "group" THEN {"plain"} ELSE {"plain", "id"}
\* The attributes a registry declares form a group as well (number 0) that its dependents may import,
\* unless the registry is published.
KeysOf(i, sh) == IF i.n = 0 THEN (IF sh = "v1" THEN {"id"} ELSE {"plain", "id"}) ELSE Keys(i.f, sh)
Matches(p, i, keys) == /\ p.f = i.f
  /\ CASE p.t = "all" -> keys # {}
       [] p.t = "none" -> FALSE
       [] p.t = "num" -> p.n = i.n /\ keys # {}
       [] p.t = "ns" -> p.s = i.s /\ (IF p.id THEN "id" ELSE "plain") \in keys
       [] OTHER -> p.s = i.s /\ p.n = i.n /\ (IF p.id THEN "id" ELSE "plain") \in keys

(* An entry of the content of a registry: owner, index, and the shape in     *)
(* which it is presented to dependents.                                      *)
Ent(o, j, sh) == [o |-> o, j |-> j, sh |-> sh]
It(e) == reg[e.o].own[e.j]
Shape(fmt, sh) == IF fmt = "pkg" THEN "pub" ELSE sh
OwnEnts(k) == {Ent(k, j, Shape(reg[k].fmt, reg[k].fmt)) : j \in DOMAIN reg[k].own}
\* What a dependency offers: its content, without internal groups. A package holds public groups only;
\* groups of version 1, and those imported from a package, are not public.
Public(q, x) == It(x).n > 0 /\ reg[x.o].fmt # "v1" /\ (x.o = q \/ x.sh # "pub")
Shown(q, x) == ~It(x).int /\ (reg[q].fmt # "pkg" \/ It(x).f # "group" \/ Public(q, x))
Offers(q) == {Ent(e.o, e.j, Shape(reg[q].fmt, e.sh)) : e \in {x \in cont[q] : Shown(q, x)}}
Hit(p, e) == Matches(p, It(e), KeysOf(It(e), e.sh))
Wants(pats, e) == \E p \in Range2(pats) : Hit(p, e)
\* without the implicit import of everything, by --include-unreferenced
Taken(k, q, all) == {e \in Offers(q) : ~It(e).ex /\ (all \/ Wants(reg[k].pats, e))}
SameItem(e, x) == e.o = x.o /\ e.j = x.j
First(k, e) == Min({h \in DOMAIN reg[k].deps : \E x \in Offers(reg[k].deps[h]) : SameItem(x, e)})
\* Imported: taken from the first dependency in manifest order of which it is taken
Imported(k, all) == {e \in UNION {Taken(k, reg[k].deps[h], all) : h \in DOMAIN reg[k].deps} :
   \E h \in DOMAIN reg[k].deps : e \in Taken(k, reg[k].deps[h], all) /\ \A g \in 1..(h - 1) : \A x \in Taken(k, reg[k].deps[g], all) : ~SameItem(x, e)}

(* ------------------------------ attributes ------------------------------ *)
Definers(k, s, n, ex) == {q \in Range2(reg[k].deps) : \E a \in Range2(reg[q].attrs) : a.s = s /\ a.n = n /\ a.ex = ex}
OwnAtt(k, s, n) == {a \in Range2(reg[k].attrs) : a.s = s /\ a.n = n}
\* the registry whose attribute a use in registry k refers to; 0 when there is none
Ref(k, s, n) == IF OwnAtt(k, s, n) # {} THEN k ELSE IF Definers(k, s, n, FALSE) # {} THEN Min(Definers(k, s, n, FALSE)) ELSE 0
\* Attribute names that registry k can reach through its direct dependencies, and whose every definition is there.
RECURSIVE Below(_)
Below(S) == LET T == S \cup UNION {Range2(reg[k].deps) : k \in S} IN IF T = S THEN S ELSE Below(T)
Clear(k, s, n) == \A q \in Below(Range2(reg[k].deps)) : (\E a \in Range2(reg[q].attrs) : a.s = s /\ a.n = n) => q \in Range2(reg[k].deps)
Reach(k) == {<<a.s, a.n>> : a \in UNION {Range2(reg[q].attrs) : q \in Range2(reg[k].deps)}}
Usable(k) == {x \in Reach(k) : Clear(k, x[1], x[2]) /\ Cardinality(Definers(k, x[1], x[2], FALSE)) = 1}

(* ------------------------------- generation ----------------------------- *)
RSub(S, m) == IF S = {} THEN {} ELSE RandomSubset(Min({R(0..m), Cardinality(S)}), S)
\* names already taken by another registry under a foreign namespace
Moved(f, s, n) == \E k \in K : k # s /\ \E i \in Range2(reg[k].own) : i.f = f /\ i.s = s /\ i.n = n
MovedA(s, n) == \E k \in K : k # s /\ \E a \in Range2(reg[k].attrs) : a.s = s /\ a.n = n
RAttrs(me) == LET mv == IF P(35) THEN {x \in {<<s, n>> : s \in K, n \in 1..NN} : ~MovedA(x[1], x[2]) /\ \E a \in Range2(reg[x[1]].attrs) : a.n = x[2] /\ a.s = x[1] /\ a.ex} ELSE {}
  IN [n \in 1..NN |-> Att(me, n, n > 1 /\ P(45))] \o (IF mv = {} THEN <<>> ELSE LET x == R(mv) IN <<Att(x[1], x[2], FALSE)>>)
RItems(me, fmt, attrs) ==
  LET fs == RandomSubset(R(1..4), Fams)
      full == TLCEval({<<f, n>> : f \in fs, n \in 1..NN})
      mv == IF P(35) THEN {x \in UNION {{<<i.f, i.s, i.n>> : i \in {y \in Range2(reg[k].own) : y.ex /\ y.s = k /\ y.f # "group"}} : k \in K} : ~Moved(x[1], x[2], x[3])} ELSE {}
      names == TLCEval({<<x[1], me, x[2]>> : x \in RandomSubset(R(1..Min({5, Cardinality(full)})), full)} \cup (IF mv = {} THEN {} ELSE {R(mv)}))
      visible == {<<a.s, a.n>> : a \in {x \in Range2(attrs) : ~x.ex}}
      any == {<<a.s, a.n>> : a \in Range2(attrs)}
      one(x) == LET int == x[1] = "group" /\ fmt # "v1" /\ P(30) ex == x[2] = me /\ ~int /\ P(35)
                    a == R(IF ex \/ int THEN any ELSE visible) IN Itm(x[1], x[2], x[3], ex, int, a[1], a[2])
  IN <<Itm("group", me, 0, FALSE, FALSE, me, 1)>> \o [j \in 1..Cardinality(names) |-> one(SetToSeq(names)[j])]
RPat(me, offered, fmt) ==
  LET f == R({It(e).f : e \in offered}) e == R({x \in offered : It(x).f = f}) i == It(e)
      t == R({"all", "ns", "ns", "num", "exact", "exact"}) IN Pat(f, R({"all", "ns", "num", "exact", "exact2"} \ {}) , P(35), i.s, i.n)
Norm(p) == [p EXCEPT !.t = IF @ = "exact2" THEN "exact" ELSE @]
\* attributes of other registries are used by some items of a registry
Borrow(me, i, us) == IF us = {} \/ P(60) \/ i.int \/ i.f = "group" THEN i ELSE LET a == R(us) IN [i EXCEPT !.as = a[1], !.an = a[2]]

AddR == /\ Random /\ pc = "grow" /\ L < NR
  /\ \E fmt \in {R({"v1", "v2", "pkg"})} : \E ds \in {IF L = 0 THEN {} ELSE RSub(K, 3)} : \E sq \in {R({SetToSeq(ds), Reverse(SetToSeq(ds))})} : \E at \in {RAttrs(L + 1)} :
     \E ow \in {RItems(L + 1, fmt, at)} : reg' = Append(reg, Reg(fmt, sq, ow, at, <<>>))
  /\ pc' = "pats" /\ UNCHANGED <<cont, todo, got, main, out>>
OfferedTo(k) == UNION {Offers(q) : q \in Range2(reg[k].deps)}
\* patterns of a registry other than main match something, in whatever shape it comes first, and nothing excluded
Fine(k, p) == /\ \A e, x \in OfferedTo(k) : Hit(p, e) /\ SameItem(e, x) => Hit(p, x)
              /\ \E e \in OfferedTo(k) : Hit(p, e) /\ ~It(e).ex
              /\ \A e \in OfferedTo(k) : Hit(p, e) => ~It(e).ex
PatsR == /\ Random /\ pc = "pats" /\ pc' = "take"
  /\ \E ps \in {IF OfferedTo(L) = {} THEN <<>> ELSE [j \in 1..R(0..4) |-> Norm(RPat(L, OfferedTo(L), reg[L].fmt))]} :
     \E us \in {Usable(L)} :
     reg' = [reg EXCEPT ![L].pats = SelectSeq(ps, LAMBDA p : Fine(L, p)), ![L].own = [j \in DOMAIN @ |-> Borrow(L, @[j], us)]]
  /\ UNCHANGED <<cont, todo, got, main, out>>

(* exhaustive: two dependencies (the second may depend on the first) and main *)
One(me, f, ex, int) == Itm(f, me, 1, ex, int, me, 1)
AddA == /\ ~Random /\ pc = "grow" /\ L < NR
  /\ \E fmt \in {"v1", "v2", "pkg"} : \E d \in (IF L = 0 THEN {<<>>} ELSE {<<>>, <<1>>}) : \E f \in {"metric", "span"} : \E ex \in BOOLEAN :
     \E ps \in {<<>>} \cup {<<Pat(g, t, id, s, 1)>> : g \in {"metric", "span"}, t \in {"all", "exact"}, id \in BOOLEAN, s \in {1}} :
       (d # <<>> \/ ps = <<>>) /\ reg' = Append(reg, Reg(fmt, d, <<One(L + 1, f, ex, FALSE)>>, <<Att(L + 1, 1, ex)>>, ps))
  /\ pc' = "take" /\ UNCHANGED <<cont, todo, got, main, out>>
MainA == /\ ~Random /\ pc = "grow" /\ L = NR /\ pc' = "take"
  /\ \E d \in {<<1, 2>>, <<2, 1>>, <<2>>} : \E a \in BOOLEAN : \E ps \in {<<>>} \cup {<<Pat(f, t, id, s, 1)>> : f \in {"metric", "span"}, t \in {"all", "exact"}, id \in BOOLEAN, s \in {1, 2}} :
     reg' = Append(reg, Reg("v2", d, <<>>, <<Att(NR + 1, 1, FALSE)>>, ps)) /\ main' = [all |-> a, uses |-> <<>>]
  /\ UNCHANGED <<cont, todo, got, out>>

(* ---------------------------- the main registry ------------------------- *)
\* uses: [k |-> "ref"|"refine"|"assoc", f, s, n, ex |-> whether the user itself is excluded]
Use(k, f, s, n, ex) == [k |-> k, f |-> f, s |-> s, n |-> n, ex |-> ex]
\* a name of an offered item, now and then one that does not exist
RName(S, dflt) == IF S = {} \/ P(4) THEN dflt ELSE R(S)
RUses(me, fmt) ==
  LET off == OfferedTo(me) own == Range2(reg[me].own)
      good(e) == ~It(e).ex
      pick(S) == IF P(88) THEN {x \in S : good(x)} ELSE S
      atts == {x \in Reach(me) : Clear(me, x[1], x[2])}
      us == Usable(me)
      ref(z_) == LET S == IF P(90) THEN us ELSE atts a == RName(IF P(75) THEN S ELSE {<<x.s, x.n>> : x \in {y \in Range2(reg[me].attrs) : ~y.ex \/ P(10)}}, <<me, 9>>) IN Use("ref", "attr", a[1], a[2], P(20))
      sig(z_) == LET es == {e \in pick(off) : It(e).n > 0 /\ (IF fmt = "v1" THEN It(e).f \in {"span", "group"} ELSE It(e).f # "group")} i == IF es = {} THEN Itm("span", me, 9, FALSE, FALSE, me, 1) ELSE It(R(es)) IN
                 IF P(4) THEN Use("refine", i.f, me, 9, P(20)) ELSE Use("refine", i.f, i.s, i.n, P(20))
      asc(z_) == LET es == {e \in pick(off) : It(e).f = "entity"} oe == {i \in own : i.f = "entity" /\ (~i.ex \/ P(10))}
                     i == IF oe # {} /\ P(40) THEN R(oe) ELSE IF es = {} \/ P(4) THEN Itm("entity", me, 9, FALSE, FALSE, me, 1) ELSE It(R(es)) IN Use("assoc", "entity", i.s, i.n, P(20))
      has == Cardinality({e \in off : It(e).f # "group"}) ents == {e \in off : It(e).f = "entity"} # {}
      n == R(0..4)
      inc(z_) == LET gs == {e \in off : It(e).f = "group" /\ It(e).n > 0} i == It(R(gs)) IN Use("incl", "group", i.s, i.n, P(20))
      one(z_) == IF fmt # "v1" /\ P(2) /\ {e \in off : It(e).f = "group" /\ It(e).n > 0} # {} THEN inc(0) ELSE LET z == R({"ref", "refine", "assoc"}) IN IF z = "refine" /\ (has > 0 \/ P(2)) THEN sig(0) ELSE IF z = "assoc" /\ (ents \/ P(15)) THEN asc(0) ELSE ref(0)
  IN [j \in 1..n |-> one(j)]
MainR == /\ Random /\ pc = "grow" /\ L = NR
  /\ \E fmt \in {R({"v1", "v2", "v2"})} : \E ds \in {RandomSubset(1, {L}) \cup RSub(K, 3)} : \E sq \in {R({SetToSeq(ds), Reverse(SetToSeq(ds))})} : \E at \in {RAttrs(L + 1)} :
     \E ow \in {RItems(L + 1, fmt, at)} : reg' = Append(reg, Reg(fmt, sq, ow, at, <<>>))
  /\ pc' = "mainpats" /\ UNCHANGED <<cont, todo, got, main, out>>
\* in main a pattern may match nothing, or something excluded
MainPatsR == /\ Random /\ pc = "mainpats" /\ pc' = "take"
  /\ \E bad \in {P(20)} : \E ps \in {[j \in 1..R(0..5) |-> IF OfferedTo(L) = {} \/ P(3) THEN Pat(R(Fams), R({"none", "exact"}), FALSE, L, 1) ELSE Norm(RPat(L, OfferedTo(L), "v2"))]} : \E us \in {Usable(L)} :
     reg' = [reg EXCEPT ![L].pats = SelectSeq(ps, LAMBDA p : bad \/ (\A e \in OfferedTo(L) : Hit(p, e) => ~It(e).ex)), ![L].own = [j \in DOMAIN @ |-> Borrow(L, @[j], us)]]
  /\ \E a \in {P(25)} : \E x \in {RUses(L, reg[L].fmt)} : main' = [all |-> a, uses |-> x]
  /\ UNCHANGED <<cont, todo, got, out>>

(* ------------------------------- importing ------------------------------ *)
\* Registries are read bottom up. Packages are made beforehand, so the flag does not reach them.
IsMain == main # <<>>
All(k) == IsMain /\ main.all
Begin == pc = "take" /\ todo = <<>> /\ got = {} /\ pc' = "run" /\ todo' = [dep |-> 1, seen |-> {}] /\ UNCHANGED <<reg, cont, got, main, out>>
Step == /\ pc = "run" /\ todo.dep <= Len(reg[L].deps)
  /\ UNCHANGED <<pc, reg, cont, main, out>>
  /\ LET q == reg[L].deps[todo.dep] left == Offers(q) \ todo.seen IN
     IF left = {} THEN todo' = [dep |-> todo.dep + 1, seen |-> {}] /\ UNCHANGED got
     ELSE \E e \in (IF Random THEN {CHOOSE x \in left : TRUE} ELSE left) :
       /\ todo' = [todo EXCEPT !.seen = @ \cup {e}]
       /\ got' = (IF ~It(e).ex /\ (All(L) \/ Wants(reg[L].pats, e)) /\ ~\E x \in got : SameItem(x, e) THEN got \cup {e} ELSE got)
Done == /\ pc = "run" /\ todo.dep > Len(reg[L].deps) /\ cont' = Append(cont, OwnEnts(L) \cup got) /\ todo' = <<>> /\ got' = {}
  /\ pc' = (IF ~IsMain THEN "grow" ELSE "judge") /\ UNCHANGED <<reg, main, out>>

(* --include-unreferenced reaches the sources of all registries (packages    *)
(* were made before): what they contain, given the flag.                     *)
ContAll ==
  LET offers(c, q) == {Ent(e.o, e.j, Shape(reg[q].fmt, e.sh)) : e \in {x \in c[q] : Shown(q, x)}}
      take(c, k) == FoldLeft(LAMBDA acc, q : acc \cup {e \in offers(c, q) : ~It(e).ex /\ ~\E x \in acc : SameItem(x, e)}, {}, reg[k].deps)
  IN FoldLeft(LAMBDA c, k : Append(c, IF reg[k].fmt = "pkg" THEN cont[k] ELSE OwnEnts(k) \cup take(c, k)), <<>>, [k \in K |-> k])

(* -------------------------------- judging ------------------------------- *)
Exc(id, t, u) == [k |-> "excluded", id |-> id, t |-> t, u |-> u]
Nope(id, t, u) == [k |-> "unresolved", id |-> id, t |-> t, u |-> u]
\* names: <<spelling, family, namespace, number>>
Nm(sp, f, s, n) == [sp |-> sp, f |-> f, s |-> s, n |-> n]
Id(i) == Nm("id", i.f, i.s, i.n)
Named(S, u) == {e \in S : It(e).f = u.f /\ It(e).s = u.s /\ It(e).n = u.n}
\* what a registry declares itself goes first
\* (an attribute group cannot be extended in a package)
Refined(mine, off, raw, u) == IF Named(mine, u) # {} THEN Named(mine, u) ELSE IF u.f = "group" THEN Named(raw, u) ELSE Named(off, u)
Judge ==
  LET m == L
      c == IF main.all THEN ContAll ELSE cont
      offer(q) == {Ent(e.o, e.j, Shape(reg[q].fmt, e.sh)) : e \in {x \in c[q] : Shown(q, x)}}
      off == UNION {offer(q) : q \in Range2(reg[m].deps)}
      raw == UNION {offer(q) : q \in {x \in Range2(reg[m].deps) : reg[x].fmt # "pkg"}}
      mine == {Ent(m, j, "own") : j \in DOMAIN reg[m].own}
      U == {j \in DOMAIN main.uses : TRUE}
      own == Range2(reg[m].own)
      ext == UNION {LET u == main.uses[j] r == Refined(mine, off, raw, u) IN
               IF u.k = "incl" THEN {Nope(Nm("plain", "group", u.s, u.n), "include", j)} ELSE IF u.k # "refine" THEN {} ELSE IF r = {} THEN {Nope(Nm("id", u.f, u.s, u.n), "extends", j)}
               ELSE IF \A e \in r : It(e).ex /\ (e.o # m \/ ~u.ex) THEN {Exc(Nm("id", u.f, u.s, u.n), u.f, j)} ELSE {} : j \in U}
      att == UNION {LET u == main.uses[j] o == OwnAtt(m, u.s, u.n) IN
               IF u.k # "ref" THEN {}
               ELSE IF o # {} THEN (IF (\E a \in o : a.ex) /\ ~u.ex THEN {Exc(Nm("plain", "attr", u.s, u.n), "Attribute", j)} ELSE {})
               ELSE IF Definers(m, u.s, u.n, FALSE) # {} THEN {}
               ELSE IF Definers(m, u.s, u.n, TRUE) # {} THEN {Exc(Nm("plain", "attr", u.s, u.n), "Attribute", j)}
               ELSE {Nope(Nm("plain", "attr", u.s, u.n), "ref", j)} : j \in U}
      clash(h) == {e \in offer(reg[m].deps[h]) : It(e).ex /\ Wants(reg[m].pats, e)}
      H == {h \in DOMAIN reg[m].deps : clash(h) # {}}
      imp == IF H = {} THEN {} ELSE {Exc(Nm(IF e.sh = "pub" THEN "plain" ELSE "id", It(e).f, It(e).s, It(e).n), It(e).f, 0) : e \in clash(Min(H))}
      asc == UNION {LET u == main.uses[j] o == {i \in own : i.f = "entity" /\ i.s = u.s /\ i.n = u.n} r == Named(off, u) IN
               IF u.k # "assoc" THEN {}
               ELSE IF o # {} THEN (IF (\E i \in o : i.ex) /\ ~u.ex THEN {Exc(Nm("plain", "entity", u.s, u.n), "entity", j)} ELSE {})
               ELSE IF r = {} THEN {Nope(Nm("plain", "entity", u.s, u.n), "assoc", j)}
               ELSE IF \A e \in r : It(e).ex THEN {Exc(Nm("plain", "entity", u.s, u.n), "entity", j)} ELSE {} : j \in U}
      first == IF ext # {} THEN ext ELSE IF att # {} THEN att ELSE IF imp # {} THEN imp ELSE asc
      \* a pattern is answered for by an item that was imported, under any of its spellings
      ans(p) == \E e \in c[m] : e.o # m /\ Hit(p, e)
      entry(e) == [o |-> e.o, j |-> e.j, sh |-> e.sh, pub |-> Public(m, e), def |-> Ref(e.o, It(e).as, It(e).an)]
      refd(j) == LET u == main.uses[j] e == CHOOSE x \in Refined(mine, off, raw, u) : x.o = m \/ ~It(x).ex IN [o |-> e.o, j |-> e.j, def |-> Ref(e.o, It(e).as, It(e).an)]
      \* a group that a package passes on does not say where it comes from: met on two ways it is there twice
      twice == \E k \in K : \E g, h \in Range2(reg[k].deps) : g # h /\ \E x \in offer(g), y \in offer(h) : It(x).f = "group" /\ x.sh = "pub" /\ ~It(x).ex /\ SameItem(x, y)
  IN [twice |-> twice, errs |-> SetToSeq(first), more |-> Cardinality(ext) + Cardinality(att) + Cardinality(imp) + Cardinality(asc),
      unmatched |-> IF first # {} THEN <<>> ELSE SetToSeq({j \in DOMAIN reg[m].pats : ~ans(reg[m].pats[j])}),
      content |-> IF first # {} THEN <<>> ELSE SetToSeq({entry(e) : e \in c[m]}),
      uses |-> IF first # {} THEN <<>> ELSE [j \in DOMAIN main.uses |-> LET u == main.uses[j] IN
          CASE u.k = "ref" -> [o |-> Ref(m, u.s, u.n), j |-> 0, def |-> 0]
            [] u.k = "refine" -> refd(j)
            [] OTHER -> [o |-> 0, j |-> 0, def |-> 0]],
      items |-> c[m]]
JudgeStep == pc = "judge" /\ out' = Judge /\ pc' = "done" /\ UNCHANGED <<reg, cont, todo, got, main>>
\* the definitions behind the items of every registry
Case == [reg |-> [k \in K |-> [reg[k] EXCEPT !.own = [j \in DOMAIN reg[k].own |-> [i |-> reg[k].own[j], def |-> Ref(k, reg[k].own[j].as, reg[k].own[j].an)]]]],
         all |-> main.all, twice |-> out.twice, uses |-> main.uses, errs |-> out.errs, more |-> out.more, unmatched |-> out.unmatched, content |-> out.content, used |-> out.uses]
Emit == pc = "done" /\ Random /\ PrintT("@@" \o ToJson(Case)) /\ pc' = "end" /\ UNCHANGED <<reg, cont, todo, got, main, out>>

Init == pc = "grow" /\ reg = <<>> /\ cont = <<>> /\ todo = <<>> /\ got = {} /\ main = <<>> /\ out = <<>>
Next == AddR \/ AddA \/ MainA \/ MainR \/ PatsR \/ MainPatsR \/ Begin \/ Step \/ Done \/ JudgeStep \/ Emit
Spec == Init /\ [][Next]_vars

Signals(k) == {<<e.o, e.j>> : e \in cont[k]}
\* Nothing excluded and nothing internal of another registry is ever contained.
NoLeak == \A k \in DOMAIN cont : \A e \in cont[k] : e.o # k => ~It(e).ex /\ ~It(e).int
\* Everything is there once.
Once == \A k \in DOMAIN cont : \A e, x \in cont[k] : SameItem(e, x) => e = x
\* The machine comes to the declarative reading, in whatever order the items of a dependency are visited.
Exactly == \A k \in DOMAIN cont : (IsMain /\ main.all) \/ cont[k] = OwnEnts(k) \cup Imported(k, FALSE)
\* A foreign signal is contained iff some dependency offers it and a pattern names it there.
Iff == \A k \in DOMAIN cont : (IsMain /\ main.all) \/ Signals(k) = {<<k, j>> : j \in DOMAIN reg[k].own} \cup
   {<<e.o, e.j>> : e \in {x \in UNION {Offers(q) : q \in Range2(reg[k].deps)} : ~It(x).ex /\ Wants(reg[k].pats, x)}}
\* With the flag everything usable below is contained, and nothing else.
Everything == pc = "done" /\ main.all /\ (\A k \in K : reg[k].fmt # "pkg") => {<<e.o, e.j>> : e \in out.items} =
   {<<L, j>> : j \in DOMAIN reg[L].own} \cup UNION {{<<k, j>> : j \in {h \in DOMAIN reg[k].own : ~reg[k].own[h].ex /\ ~reg[k].own[h].int}} : k \in Below(Range2(reg[L].deps))}
=============================================================================
