------------------------------- MODULE Search -------------------------------
(* What `weaver serve` and the MCP server answer (Q01): looking up items by  *)
(* name, searching, paging, browsing namespaces.                             *)
(*                                                                           *)
(* The machine filters (in any order), scores, inserts one item at a time    *)
(* (in any order) into a ranked list and cuts a page.  Answer says the page  *)
(* at once.  Texts are sequences of characters.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Random, MaxItems
VARIABLES pc, items, query, filters, alive, todo, ranked, page, out
vars == <<pc, items, query, filters, alive, todo, ranked, page, out>>
R(S) == RandomElement(S)
P(k) == RandomElement(1..100) <= k

(* -------------------------------- texts -------------------------------- *)
Kinds == <<"attribute", "metric", "span", "event", "entity">>
Rank(k) == CHOOSE i \in DOMAIN Kinds : Kinds[i] = k
Stabs == {"stable", "development", "alpha", "beta", "release_candidate"}
Upper == [A |-> "a", B |-> "b", C |-> "c"]
Lower(s) == [i \in DOMAIN s |-> IF s[i] \in DOMAIN Upper THEN Upper[s[i]] ELSE s[i]]
Chars == <<" ", "-", ".", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "_", "a", "b", "c", "z">>
Code == [c \in {Chars[i] : i \in DOMAIN Chars} |-> CHOOSE i \in DOMAIN Chars : Chars[i] = c]
Less(a, b) == LET n == Min({Len(a), Len(b)}) d == {i \in 1..n : a[i] # b[i]} IN IF d = {} THEN Len(a) < Len(b) ELSE Code[a[Min(d)]] < Code[b[Min(d)]]
Starts(t, s) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Has(t, s) == \E i \in 0..(Len(t) - Len(s)) : SubSeq(t, i + 1, i + Len(s)) = s
\* the pieces between characters of D, empty ones left out
Split(s, D) == {t \in FoldLeft(LAMBDA o, c : IF c \in D THEN [done |-> o.done \cup {o.cur}, cur |-> <<>>] ELSE [o EXCEPT !.cur = Append(@, c)], [done |-> {}, cur |-> <<>>], Append(s, CHOOSE d \in D : TRUE)).done : t # <<>>}

(* ------------------------------ declarative ---------------------------- *)
\* An item: k kind, id, brief, note, stab, dep (deprecated), tmpl.  A query: how (serve, mcp), none (no query), q, type, stab ("" any), hide, limit (-1 not said), offset, sep.
Relevance(q, it, sep) ==
  LET s == Lower(q) id == Lower(it.id) br == Lower(it.brief) no == Lower(it.note)
      qs == Split(s, {sep, "_", " "}) ids == Split(id, {sep, "_"})
      plain == IF id = s THEN 100 ELSE IF Starts(id, s) THEN 80 ELSE IF Has(id, s) THEN 70
        ELSE IF qs # {} /\ \A t \in qs : \E u \in ids : Has(u, t) THEN 60
        ELSE IF Has(br, s) THEN 40 ELSE IF Has(no, s) THEN 20
        ELSE IF qs # {} /\ \A t \in qs : Has(br, t) THEN 35 ELSE IF qs # {} /\ \A t \in qs : Has(no, t) THEN 15 ELSE 0
  IN IF it.dep /\ plain > 0 THEN Max({plain \div 10, 1}) ELSE plain
Browsing(qu) == qu.none \/ qu.q = <<>>
Score(qu, it) == IF Browsing(qu) THEN 0 ELSE Relevance(qu.q, it, qu.sep)
Pass(f, qu, it) == CASE f = "type" -> qu.type = "all" \/ qu.type = it.k [] f = "stab" -> qu.stab = "" \/ qu.stab = it.stab [] f = "hide" -> ~qu.hide \/ ~it.dep
Filters == {"type", "stab", "hide"}
Most == [serve |-> 1000, mcp |-> 100]
Usual == [serve |-> 50, mcp |-> 20]
Limit(qu) == IF qu.limit < 0 THEN Usual[qu.how] ELSE Min({qu.limit, Most[qu.how]})
Matches(its, qu) == {i \in DOMAIN its : (\A f \in Filters : Pass(f, qu, its[i])) /\ (Browsing(qu) \/ Score(qu, its[i]) > 0)}
\* the more relevant first; the registry's order among equals
Answer(its, qu) ==
  LET m == Matches(its, qu) sc == [i \in m |-> Score(qu, its[i])]
      all == IF Browsing(qu) THEN SetToSortSeq(m, <) ELSE SetToSortSeq(m, LAMBDA i, j : sc[i] > sc[j] \/ (sc[i] = sc[j] /\ i < j))
  IN [total |-> Cardinality(m), page |-> [p \in 1..Len(SubSeq(all, qu.offset + 1, Min({qu.offset + Limit(qu), Len(all)}))) |-> [i |-> all[qu.offset + p], s |-> sc[all[qu.offset + p]]]]]

\* namespaces: of the attributes, templates among them
Trim(p, sep) == LET keep == {i \in DOMAIN p : p[i] # sep} IN IF keep = {} THEN <<>> ELSE SubSeq(p, 1, Max(keep))
Under(its, p, sep) == {i \in DOMAIN its : its[i].k = "attribute" /\ (p = <<>> \/ Starts(its[i].id, Append(p, sep)))}
Rest(id, p) == IF p = <<>> THEN id ELSE SubSeq(id, Len(p) + 2, Len(id))
FirstSep(r, sep) == LET d == {i \in DOMAIN r : r[i] = sep} IN IF d = {} THEN 0 ELSE Min(d)
Browse(its, prefix, sep) ==
  LET p == Trim(prefix, sep) u == Under(its, p, sep)
      direct == {i \in u : FirstSep(Rest(its[i].id, p), sep) = 0}
      sub(i) == LET r == Rest(its[i].id, p) IN (IF p = <<>> THEN <<>> ELSE Append(p, sep)) \o SubSeq(r, 1, FirstSep(r, sep) - 1)
  IN [prefix |-> p, direct |-> direct, subs |-> {sub(i) : i \in u \ direct}, total |-> Cardinality(u),
      depth |-> IF u = {} THEN 0 ELSE Max({1 + Cardinality({j \in DOMAIN Rest(its[i].id, p) : Rest(its[i].id, p)[j] = sep}) : i \in u})]
Lookup(its, k, name) == LET m == {i \in DOMAIN its : its[i].k = k /\ its[i].id = name} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE

(* -------------------------------- machine ------------------------------ *)
NoQuery == [how |-> "serve", none |-> TRUE, q |-> <<>>, type |-> "all", stab |-> "", hide |-> FALSE, limit |-> -1, offset |-> 0, sep |-> "."]
Keep == UNCHANGED <<items, query, out>>
Filter == pc = "filter" /\ Keep /\ UNCHANGED <<todo, ranked, page>> /\ \E f \in filters : filters' = filters \ {f} /\ alive' = {i \in alive : Pass(f, query, items[i])} /\ pc' = pc
ToRank == pc = "filter" /\ filters = {} /\ pc' = "rank" /\ todo' = alive /\ Keep /\ UNCHANGED <<filters, alive, ranked, page>>
\* where an item belongs in the list so far
Place(l, i, s) == Cardinality({p \in DOMAIN l : l[p].s > s \/ (l[p].s = s /\ l[p].i < i)})
Insert == pc = "rank" /\ Keep /\ UNCHANGED <<filters, alive, page, pc>> /\ \E i \in todo : todo' = todo \ {i} /\
  LET s == Score(query, items[i]) n == Place(ranked, i, s) IN ranked' = IF s = 0 /\ ~Browsing(query) THEN ranked ELSE SubSeq(ranked, 1, n) \o <<[i |-> i, s |-> s]>> \o SubSeq(ranked, n + 1, Len(ranked))
Cut == pc = "rank" /\ todo = {} /\ pc' = "done" /\ page' = SubSeq(ranked, query.offset + 1, Min({query.offset + Limit(query), Len(ranked)})) /\ Keep /\ UNCHANGED <<filters, alive, todo, ranked>>

(* -------------------------------- random ------------------------------- *)
Words == {<<"a", "b">>, <<"a", "b", "c">>, <<"b">>, <<"c", "a">>, <<"c", "a", "b">>, <<"b", "b">>, <<"a">>, <<"c">>}
RWord(d) == LET w == R(Words) IN IF P(8) THEN [w EXCEPT ![1] = CASE w[1] = "a" -> "A" [] w[1] = "b" -> "B" [] OTHER -> "C"] ELSE w
RJoin(n, S) == FoldLeft(LAMBDA o, i : o \o <<R(S)>> \o RWord(0), RWord(0), [i \in 1..n |-> i])
RName(d) == RJoin(R({0, 0, 1, 1, 1, 2, 2, 3}), {".", ".", "_", "-"})
RText(d) == IF P(25) THEN <<>> ELSE RJoin(R(0..3), {" ", " ", " ", "."})
RItem(d) == LET k == IF P(35) THEN "attribute" ELSE R({Kinds[i] : i \in DOMAIN Kinds}) IN
  [k |-> k, id |-> RName(0), brief |-> RText(0), note |-> RText(0), stab |-> IF P(60) THEN R({"stable", "development"}) ELSE R(Stabs), dep |-> P(20), tmpl |-> k = "attribute" /\ P(20)]
\* one of each name in a kind, in the registry's order
Before(x, y) == Rank(x.k) < Rank(y.k) \/ (x.k = y.k /\ Less(x.id, y.id))
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Bulk(n) == [i \in 1..n |-> [k |-> "attribute", id |-> <<"z", ".", Digit[1 + ((i \div 1000) % 10)], Digit[1 + ((i \div 100) % 10)], Digit[1 + ((i \div 10) % 10)], Digit[1 + (i % 10)]>>, brief |-> <<"b">>, note |-> <<>>, stab |-> "stable", dep |-> FALSE, tmpl |-> FALSE]]
RItems(n, bulk) == LET s == TLCEval({RItem(i) : i \in 1..n}) one == {x \in s : \A y \in s : y.k = x.k /\ Lower(y.id) = Lower(x.id) => x = y}
  l == SetToSortSeq(one, Before) at == SelectSeq(l, LAMBDA x : x.k = "attribute") no == SelectSeq(l, LAMBDA x : x.k # "attribute") IN at \o Bulk(bulk) \o no
RCase(s) == IF P(15) THEN [i \in DOMAIN s |-> CASE s[i] = "a" -> "A" [] s[i] = "b" -> "B" [] s[i] = "c" -> "C" [] OTHER -> s[i]] ELSE s
RPart(s) == IF s = <<>> THEN s ELSE LET i == R(1..Len(s)) IN SubSeq(s, i, R(i..Len(s)))
RQ(its) == LET it == IF its = <<>> THEN [id |-> <<"a">>, brief |-> <<"b">>, note |-> <<"c">>] ELSE its[R(1..Len(its))] IN
  RCase(CASE P(20) -> it.id [] P(30) -> RPart(it.id) [] P(20) -> RPart(it.brief) [] P(15) -> RPart(it.note) [] P(30) -> RWord(0) \o <<" ">> \o RWord(0)
    [] P(30) -> RJoin(2, {" ", "_", ".", "-"}) [] P(10) -> <<R({" ", ".", "_", "-"})>> [] P(10) -> <<>> [] OTHER -> RWord(0) \o <<R({" ", "."})>>)
RQuery(its, how, sep) == [how |-> how, none |-> P(15), q |-> RQ(its), type |-> IF P(50) THEN "all" ELSE R({Kinds[i] : i \in DOMAIN Kinds}),
  stab |-> IF P(60) THEN "" ELSE IF how = "mcp" THEN R({"stable", "development"}) ELSE R(Stabs), hide |-> how = "serve" /\ P(25),
  limit |-> R((IF how = "serve" THEN {0} ELSE {-1}) \cup {-1, 1, 2, 3, 5, 10, 100, 101, 1000, 1500}), offset |-> IF how = "serve" /\ P(50) THEN R({0, 1, 2, 3, 5, 10, 40, 5000}) ELSE 0, sep |-> IF how = "serve" THEN "." ELSE sep]
RLook(its) == LET it == IF its = <<>> THEN [k |-> "metric", id |-> <<"a">>] ELSE its[R(1..Len(its))] IN
  [k |-> IF P(85) THEN it.k ELSE R({Kinds[i] : i \in DOMAIN Kinds}), name |-> CASE P(60) -> it.id [] P(30) -> it.id \o <<".", "a">> [] P(40) /\ Len(it.id) > 1 -> SubSeq(it.id, 1, Len(it.id) - 1) [] OTHER -> RCase(it.id)]
RPrefix(its, sep) == LET it == IF its = <<>> THEN [id |-> <<"a">>] ELSE its[R(1..Len(its))] cut == {i \in DOMAIN it.id : it.id[i] = sep}
  p == CASE P(25) -> <<>> [] P(60) /\ cut # {} -> SubSeq(it.id, 1, R(cut) - 1) [] P(50) -> it.id [] OTHER -> RPart(it.id) IN p \o [i \in 1..R({0, 0, 0, 1, 2}) |-> sep]
Init == pc = "make" /\ items = <<>> /\ query = NoQuery /\ filters = Filters /\ alive = {} /\ todo = {} /\ ranked = <<>> /\ page = <<>> /\ out = <<>>
MakeR == /\ Random /\ pc = "make" /\ pc' = "print" /\ UNCHANGED <<query, filters, alive, todo, ranked, page>>
  /\ \E its \in {TLCEval(RItems(R(0..MaxItems), IF P(6) THEN R({60, 60, 120, 1010}) ELSE 0))} : items' = its
    /\ \E sep \in {R({".", ".", "_", "-"})} :
      \E qs \in {TLCEval([i \in 1..R(10..16) |-> RQuery(its, R({"serve", "mcp"}), sep)])} :
      \E ls \in {TLCEval([i \in 1..8 |-> RLook(its)])} :
      \E ps \in {TLCEval([i \in 1..6 |-> RPrefix(its, sep)])} :
        out' = [sep |-> sep, queries |-> [i \in DOMAIN qs |-> [q |-> qs[i], a |-> Answer(its, qs[i])]], looks |-> [i \in DOMAIN ls |-> [l |-> ls[i], i |-> Lookup(its, ls[i].k, ls[i].name)]],
                browses |-> [i \in DOMAIN ps |-> [p |-> ps[i], b |-> Browse(its, ps[i], sep)]]]
PrintR == /\ pc = "print" /\ pc' = "stop" /\ UNCHANGED <<items, query, filters, alive, todo, ranked, page, out>> /\ PrintT("@@" \o ToJson([items |-> items] @@ out))

(* ------------------------------ exhaustive ----------------------------- *)
SmallIds == {<<"a">>, <<"a", ".", "b">>, <<"B", "_", "a">>}
Small == {[k |-> k, id |-> n, brief |-> b, note |-> IF n = <<"a">> THEN <<"c">> ELSE <<>>, stab |-> IF n = <<"a">> THEN "stable" ELSE "beta", dep |-> d, tmpl |-> FALSE]
  : k \in {"attribute", "metric"}, n \in SmallIds, b \in {<<>>, <<"b", " ", "a">>}, d \in BOOLEAN}
SmallQ == {<<>>, <<"a">>, <<"b", " ", "a">>}
MakeA == /\ ~Random /\ pc = "make" /\ pc' = "filter" /\ UNCHANGED <<filters, todo, ranked, page, out>>
  /\ \E s \in {x \in SUBSET Small : Cardinality(x) <= MaxItems /\ \A y, z \in x : y # z => y.k # z.k \/ y.id # z.id} : items' = SetToSortSeq(s, Before)
  /\ \E q \in SmallQ, t \in {"all", "metric"}, st \in {"", "beta"}, h \in BOOLEAN, l \in {-1, 1}, o \in {0, 1} :
       query' = [NoQuery EXCEPT !.none = FALSE, !.q = q, !.type = t, !.stab = st, !.hide = h, !.limit = l, !.offset = o]
  /\ alive' = DOMAIN items'
Next == MakeR \/ PrintR \/ MakeA \/ Filter \/ ToRank \/ Insert \/ Cut
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* the machine ends with what Answer says
Exact == pc = "done" => page = Answer(items, query).page /\ Len(ranked) = Answer(items, query).total
\* pages of any size, one after another, hold every match once
Pages == pc = "filter" /\ filters = Filters /\ query.limit = -1 /\ query.offset = 0 => LET all == Answer(items, [query EXCEPT !.limit = 1000, !.offset = 0]).page n == Len(all) IN
  \A l \in 1..2 : FlattenSeq([p \in 1..(n + 1) |-> Answer(items, [query EXCEPT !.limit = l, !.offset = (p - 1) * l]).page]) = all
\* relevance: an exact name before everything else that is in use; a deprecated item behind any that is in use and named alike
Relevant == pc = "done" => \A p \in DOMAIN ranked : LET it == items[ranked[p].i] IN ~Browsing(query) /\ ~it.dep /\ Lower(it.id) = Lower(query.q) => \A r \in 1..(p - 1) : Lower(items[ranked[r].i].id) = Lower(query.q)
\* namespaces are a tree: what is under one is what is in it and under its parts
Tree == pc = "done" /\ query.q = <<>> => \A sep \in {".", "_"} : \A p \in {<<>>} \cup Browse(items, <<>>, sep).subs :
  LET b == Browse(items, p, sep) IN b.total = Cardinality(b.direct) + FoldSet(LAMBDA n, t : t + Browse(items, n, sep).total, 0, b.subs)
=============================================================================
